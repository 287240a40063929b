"""Connecting clients: where they connect to, what they send, which responses they take and what they hand out (C11, C16, C17, C18, C19, C21, C28, roles)"""
from .check import *
from .terms import *
from .entropy import judge as freshness
from .models import runsplit, stream_id
from .senders import probe
from .frames import Sel
from .http import hd, hget, hlayers, hdiff, run_future, framed, text_of, ci_eq, outer
from .upgrade import names, ht, vi_of, vname, protocols, options, UPGRADES, CONNS
from .opaque import ident_, identical
from .accepts import accept_value, byte_segs, elements, Dummy, norm_text, text, muted, MIB
from .conn import compare
from .urls import flag, part, port, has, req, KNOWN, number_of

B = 'src/client/builder.rs:ClientBuilder::'
# name -> (how the stream comes about, TLS: None by scheme, position of the connector argument)
CALLS = {
    'connect_on': ('given', None, None), 'async_connect_on': ('given', None, None),
    'connect': ('tcp', None, 1), 'connect_secure': ('tcp', True, 1), 'connect_insecure': ('tcp', False, None),
    'async_connect': ('tcp', None, 1), 'async_connect_secure': ('tcp', True, 1), 'async_connect_insecure': ('tcp', False, None),
}
SECURE = (b'wss', b'https')
GOOD = (('WebSocket',), (b'upgrade',))


class End:
    """one outcome of a connect call"""


def fixed(st, u, host=True, port=False, query=False, password=False, user=False):
    """assumes which parts the url has (None: either)"""
    for p, v in (('host', host), ('port', port), ('query', query), ('password', password)):
        if v is not None:
            st.assume(('dom', flag(u, p), 2 if v else 1))
    if user is not None:
        n = lenof(('url', u, 'username'))
        for x in st.alts(mk_le(sub(1, n)) if user else mk_eq(n))[0]:
            st.assume(x)


def calls(ctx, name, shape=GOOD, scheme=b'ws', builder='make_builder', url=None, again=False, mute=False):
    """outcomes of one connect call on a builder made with public methods; url: arguments of fixed()"""
    w = ctx.world('probe')
    fn = probe(ctx, name)
    mb = probe(ctx, builder)
    where = B + name
    ip = ctx.interp('probe')
    ip.scheme = scheme
    ip.mute = mute
    u, k = shape
    if u != 'open':
        ip.hfix = {ht(ip, 'upgrade'): None if u is None else protocols(ip, u), ht(ip, 'connection'): None if k is None else options(ip, k)}
    st = State()
    bargs = ctx.args(ip, mb)
    un = ip.read(st, bargs[0][1], bargs[0][2])[2] if bargs[0][3] is None else None
    if un is not None and url is not None:
        fixed(st, un, **url)
    # the builder's headers have none of the ones fixed for the response
    if len(bargs) > 1:
        hn = hd(ip.read(st, bargs[1][1], bargs[1][2]))[2]
        if u != 'open':
            for t in ('upgrade', 'connection'):
                ip.hfix[(hn, ht(ip, t))] = None
    for o in ctx.run(ip, mb, bargs, st):
        if o[0] != 'ret':
            ctx.undecided('modelled', where, 'making the builder: %s' % (o[2],))
            continue
        args = ctx.args(ip, fn)
        st1, b = o[1], o[2]
        if name.startswith('async'):
            args[0] = b
        else:
            st1.mem[args[0][1]] = b
        for e in ends(ctx, ip, w, where, name, fn, args, st1, b):
            e.bargs, e.url, e.shape, e.scheme, e.builder, e.first = bargs, un, shape, scheme, builder, 0
            yield e
            if again and e.kind == 'ok' and not name.startswith('async'):
                # the same builder connects again
                args2 = list(args)
                args2[1] = ip.sym(args[1][1], 'stream2')
                b2 = ip.read(e.st, args[0][1], args[0][2])
                for e2 in ends(ctx, ip, w, where, name, fn, args2, e.st.copy(), b2):
                    e2.bargs, e2.url, e2.shape, e2.scheme, e2.builder, e2.first = bargs, un, shape, scheme, builder, len(e.st.ev)
                    yield e2


def ends(ctx, ip, w, where, name, fn, args, st, b):
    for o in ip.exec_fn(fn, list(args), st, 0):
        outs = [o]
        if o[0] == 'ret' and name.startswith('async'):
            v = o[2]
            outs = runsplit(o[1], lambda s: run_future(ip, s, 0, v))
        for o2 in outs:
            if o2[0] == 'unk':
                ctx.undecided('modelled', where, str(o2[2])[:300])
                continue
            if o2[0] == 'panic':
                ctx.refute('no-panic', 'panic', where, 'panics (%s at %s)' % (o2[2][1], o2[2][2]), o2[1])
                continue

            def pick(s):
                e = End()
                e.ip, e.w, e.st, e.where, e.name, e.args, e.b = ip, w, s, where, name, args, b
                e.sync = not name.startswith('async')
                if e.sync:
                    vi = ip.variant_of(s, o2[2])
                    e.kind, e.value = ('ok', 'err')[vi], ip.enum_fields(s, o2[2], vi)[0]
                else:
                    e.kind, e.value = o2[2]
                return [e]
            for e in runsplit(o2[1], pick):
                yield e


def result(e, s, ev):
    r = ev[3]
    if isinstance(r, tuple) and r and r[0] in ('ok', 'err', 'item', 'end'):
        return ('ok' if r[0] == 'item' else r[0]), r[1]
    vi = e.ip.variant_of(s, r)
    return ('ok', 'err')[vi], e.ip.enum_fields(s, r, vi)[0]


def bare(ip, st, v):
    """the stream behind boxes"""
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'p' and n < 5:
        v = ip.read(st, v[1], v[2])
        n += 1
    return v


def builder_fields(e):
    return names(None, e.ip, e.b)


def judge(ctx, sel, e, s):
    """all obligations about one outcome in one (refined) state"""
    ip = e.ip
    evs = [x for x in s.ev[e.first:] if x[0] not in ('random', 'prealloc', 'flush', 'flush!')]
    i = 0
    R = sel('route')
    kind, tls, cpos = CALLS[e.name]
    stream = e.args[1] if kind == 'given' else None
    if kind == 'tcp':
        stream, i, over = route(ctx, R, e, s, evs, tls, cpos)
        if over:
            return
    Q = sel('req')
    P = sel('resp')
    rest = evs[i:]
    if e.sync:
        ws = []
        while rest and rest[0][0] in ('wr', 'wr!', 'write', 'write!'):
            ws.append(rest.pop(0))
        if not sent_sync(ctx, sel, e, s, ws, stream, rest):
            return
    else:
        if not rest or rest[0][1] != 'send':
            refute_end(Q, e, s, 'request/one', 'nothing', 'nothing is sent to the server')
            return
        x = rest.pop(0)
        if not sent_async(ctx, sel, e, s, x, stream):
            return
    # the response
    if not rest or rest[0][0] != 'x' or rest[0][1] not in ('parse_response', 'next'):
        refute_end(P, e, s, 'response/read', 'unread', 'the response is not read')
        return
    x = rest.pop(0)
    if rest:
        P.refute('response/read', 'more', e.where, 'something else happens after the response was read (%s)' % (rest[0][:2],), s)
        return
    if e.sync:
        before, after = x[2][1], x[2][2]
        got = bare(ip, s, before[0])
        identical(P, 'response/stream', 'response-stream', e.where, 'the response is read from another stream', s, ip, got, bare(ip, s, stream), e.w)
        if s.prove(mk_eq(sub(before[2], before[3]))) is not True:
            P.refute('response/stream', 'buffered', e.where, 'the response is read from a buffer that holds something already', s)
    else:
        fr = x[2][0]
        identical(P, 'response/stream', 'response-stream', e.where, 'the response is read from another stream', s, ip, bare(ip, s, fr[3]), bare(ip, s, stream), e.w)
        if seqnorm(fr[5][2] if fr[5][0] == 'bm' else (0,)):
            P.refute('response/stream', 'buffered', e.where, 'the response is read from a buffer that holds something already', s)
        ct = ip.w.types[fr[4][1]].get('path', '')
        if not ct.endswith('HttpClientCodec'):
            P.refute('response/codec', 'codec', e.where, 'the response is not decoded as an HTTP response head', s)
    tag, r = result(e, s, x)
    if tag != 'ok':
        if e.kind == 'ok':
            P.refute('response/needed', 'no-response', e.where, 'a connection although there was no valid response (%s)' % ('the stream was closed' if tag == 'end' else 'error'), s)
        else:
            P.ok('response/needed')
        return
    response(ctx, sel, e, s, r)
    if e.kind == 'ok':
        connection(ctx, sel, e, s, x, r, stream)


def refute_end(sel, e, s, name, key, msg):
    sel.refute(name, key, e.where, msg + (' and a connection is handed out' if e.kind == 'ok' else ' and the call fails'), s)


def route(ctx, R, e, s, evs, tls, cpos):
    """(stream, number of events used, finished)"""
    ip = e.ip
    u = e.url
    if tls is None:
        tls = e.scheme in SECURE
    hosted = has(s, u, 'host')
    if not hosted:
        if e.kind == 'ok' or evs:
            R.refute('route/host', 'no-host', e.where, 'a URL without a host leads to a connection attempt', s)
        else:
            R.ok('route/host')
        return None, 0, True
    if not evs:
        # resolution of the name or making the default connector failed
        if e.kind == 'ok':
            R.refute('route/tcp', 'no-tcp', e.where, 'a connection without a TCP connection', s)
            return None, 0, True
        for f in list(s.dom):
            if isinstance(f[1], tuple) and f[1][0] == 'urlhas' and isinstance(f[1][1], tuple) and f[1][1][0] == 'addrs' and s.dom[f] == 1:
                R.ok('route/resolve')
                return None, 0, True
        v = conn_default(e, s, cpos) if tls else None
        if v is not None and v[0] == 'err':
            R.ok('route/resolve')
            return None, 0, True
        R.refute('route/tcp', 'gives-up', e.where, 'the call fails without trying to connect', s)
        return None, 0, True
    x = evs[0]
    if x[0] != 'x' or x[1] != 'tcp-connect':
        R.refute('route/tcp', 'first', e.where, 'the first thing that happens is not connecting (%s)' % (x[:2],), s)
        return None, 0, True
    a = x[2][0]
    if isinstance(a, tuple) and a[:2] == ('ob', 'addr'):
        a = a[2]
    if not (isinstance(a, tuple) and a[0] == 'at'):
        R.undecided('route/address', e.where, 'address %s' % (str(a)[:80],))
    else:
        if a[1] != ('url', u, 'hostv'):
            R.refute('route/address', 'host', e.where, 'connects to another host than the one of the URL', s)
        want = port(u) if has(s, u, 'port') else KNOWN.get(e.scheme)
        if want is not None:
            R.equal('route/address', 'port', e.where, 'port that is connected to', s, a[2], want, e.w)
        else:
            R.ok('route/address')
    tag, v = result(e, s, x)
    if tag != 'ok':
        if e.kind == 'ok' or len(evs) > 1:
            R.refute('route/tcp', 'after-failure', e.where, 'goes on after the TCP connection failed', s)
        else:
            R.ok('route/tcp')
        return None, 0, True
    stream = v
    if not tls:
        if len(evs) > 1 and evs[1][1] == 'tls-connect':
            R.refute('route/plain', 'tls', e.where, 'TLS although the connection is to be a plain one', s)
            return None, 0, True
        R.ok('route/plain')
        return stream, 1, False
    d = conn_default(e, s, cpos)
    if len(evs) == 1:
        if d is not None and d[0] == 'err' and e.kind == 'err':
            R.ok('route/tls')
        else:
            R.refute('route/tls', 'no-tls', e.where, 'no TLS handshake with the server' + (' and a connection is handed out' if e.kind == 'ok' else ''), s)
        return None, 0, True
    x = evs[1]
    if x[0] != 'x' or x[1] != 'tls-connect':
        R.refute('route/tls', 'plain', e.where, 'goes on in plain text where TLS is required (%s)' % (x[:2],), s)
        return None, 0, True
    c, h, t = x[2]
    identical(R, 'route/tls', 'tls-stream', e.where, 'stream that TLS is established on', s, ip, bare(ip, s, t), bare(ip, s, stream), e.w)
    hs = seqnorm(h[2]) if h[0] == 'vec' else None
    if hs is None:
        R.undecided('route/tls', e.where, 'host name not resolved')
    else:
        R.equal('route/tls', 'tls-host', e.where, 'host name TLS is verified against', s, hs, part(ip, u, 'host'), e.w)
    c = native(ip, c)
    if d is not None and d[0] == 'err':
        R.refute('route/tls', 'connector', e.where, 'goes on without a TLS connector', s)
    elif d is not None:
        if c != d[1] and c[0] == 'sy' and isinstance(c[2], tuple) and 'tls' in str(c[2])[:12]:
            R.refute('route/tls', 'connector', e.where, 'the TLS connector is not the default one', s)
        else:
            identical(R, 'route/tls', 'connector', e.where, 'TLS connector that is used', s, ip, c, d[1], e.w)
    tag, v = result(e, s, x)
    if tag != 'ok':
        if e.kind == 'ok' or len(evs) > 2:
            R.refute('route/tls', 'after-failure', e.where, 'goes on after TLS failed', s)
        else:
            R.ok('route/tls')
        return None, 0, True
    R.ok('route/tls')
    return v, 2, False


def native(ip, c):
    if c[0] == 'st' and ip.w.types[c[1]].get('path', '').startswith('tokio_tls::'):
        return c[2][0]
    return c


def conn_default(e, s, cpos):
    """('ok', connector) to use: the one given or the default one; ('err', _) when the default one cannot be made; None if not looked at"""
    ip = e.ip
    o = e.args[cpos]
    vi = ip.variant_of(s, o)
    if vi == 1:
        return 'ok', ip.enum_fields(s, o, 1)[0]
    rt = None
    for i, x in enumerate(ip.w.types):
        if x['k'] == 'adt' and x['path'] == 'core::result::Result' and x['args'][0] == ip.field_types(o[1], 1)[0]:
            rt = i
    if rt is None:
        raise Unsupported('result of the default connector')
    r = ip.sym(rt, ('tls', ()))
    vi = ip.variant_of(s, r)
    return ('ok', 'err')[vi], ip.enum_fields(s, r, vi)[0]


# ---------------------------------------------------------------------- request

def sent_sync(ctx, sel, e, s, ws, stream, rest):
    """was the request written completely"""
    ip = e.ip
    Q = sel('req')
    if not ws:
        refute_end(Q, e, s, 'request/one', 'nothing', 'nothing is sent to the server')
        return False
    sid = stream_id(bare(ip, s, stream))
    for x in ws:
        g = x[1]
        if isinstance(g, tuple) and g and g[0] == 'p':
            g = stream_id(bare(ip, s, g))
        if g != sid:
            sel('route').refute('request/stream', 'stream', e.where, 'the request is written to another stream than the one that was established', s)
            Q.refute('request/stream', 'stream', e.where, 'the request is written to another stream than the one that was established', s)
            return False
    sel('route').ok('request/stream')
    if any(x[0] in ('write', 'write!') for x in ws):
        p = [x for x in ws if x[0] == 'write']
        if len(ws) == 1 and p:
            Q.holds('request/one', 'partial', e.where, 'the request is given to a write that may take only a part of it', s, mk_eq(sub(p[0][3], seqlen(p[0][2]))))
        else:
            Q.undecided('request/one', e.where, 'writes of parts')
        return False
    bad = [i for i, x in enumerate(ws) if x[0] == 'wr!']
    failed = bool(bad)
    if bad and (bad[0] != len(ws) - 1 or rest):
        Q.refute('request/one', 'after-failure', e.where, 'goes on after writing the request failed', s)
        return False
    got = norm_text(ip, s, sum((tuple(x[2]) for x in ws), ()))
    tx = text(got)
    hs = [i for i, g in enumerate(tx) if not isinstance(g, bytes) and g[0] == 'o' and g[1][:2] == ('disp', 'display') and g[1][2][0] in ('hd', 'sy')]
    want = text(seqnorm(tuple(bytes_seq(b'GET ')) + tuple(req(ip, s, e.url)) + tuple(bytes_seq(b' HTTP/1.1\r\n'))))
    if len(hs) > 1 or not hs and not failed:
        if all(isinstance(g, bytes) or g[1][0] == 'url' for g in tx):
            Q.refute('request/text', 'text', e.where, 'the request is %s' % (tx,), s)
        else:
            Q.undecided('request/text', e.where, 'text not resolved: ' + ctx.show(got, e.w))
        return False
    if hs:
        i = hs[0]
        end = tx[i + 1:]
        if any(not isinstance(g, bytes) and g[1][0] != 'url' for g in tx[:i]) and tx[:i] != want:
            Q.undecided('request/text', e.where, 'text not resolved: ' + ctx.show(got, e.w))
        elif tx[:i] != want or end != [b'\r\n'] and not (failed and not end):
            Q.refute('request/text', 'text', e.where, 'the request is %s headers %s instead of %s headers %r' % (show_text(tx[:i]), show_text(end), show_text(want), b'\r\n'), s)
        else:
            Q.ok('request/text')
        e.sent = tx[i][1][2]
        headers(ctx, sel, e, s, e.sent)
    if failed:
        if e.kind == 'ok':
            Q.refute('request/one', 'unwritten', e.where, 'a connection although the request could not be written', s)
        else:
            Q.ok('request/one')
        return False
    Q.ok('request/one')
    return True


def show_text(tx):
    return ' '.join(repr(g) if isinstance(g, bytes) else '<%s>' % (g[1][2] if g[1][0] == 'url' else g[1][0],) for g in tx)


def sent_async(ctx, sel, e, s, x, stream):
    ip = e.ip
    Q = sel('req')
    fr, item = x[2]
    for g in ('req', 'route'):
        identical(sel(g), 'request/stream', 'stream', e.where, 'the request is written to another stream than the one that was established', s, ip, bare(ip, s, fr[3]), bare(ip, s, stream), e.w)
    ct = ip.w.types[fr[4][1]].get('path', '')
    if not ct.endswith('HttpClientCodec'):
        Q.refute('request/codec', 'codec', e.where, 'the request is not encoded as an HTTP request head', s)
        return False
    if seqnorm(fr[6][2]):
        Q.refute('request/one', 'before', e.where, 'something else is written before the request', s)
    f = names(None, ip, item)
    v = f['version']
    if vname(ip, v, ip.variant_of(s, v)) != 'Http11':
        Q.refute('request/text', 'version', e.where, 'the request is not HTTP/1.1', s)
    m, uri = ip.expand(f['subject'])[2]
    if vname(ip, m, ip.variant_of(s, m)) != 'Get':
        Q.refute('request/text', 'method', e.where, 'the method is not GET', s)
    vi = ip.variant_of(s, uri)
    if vname(ip, uri, vi) != 'AbsolutePath':
        Q.refute('request/text', 'uri', e.where, 'the request target is not an absolute path', s)
    else:
        t = seqnorm(text_of(Dummy(ip, s), ip.enum_fields(s, uri, vi)[0]))
        Q.equal('request/text', 'text', e.where, 'request target', s, t, seqnorm(tuple(req(ip, s, e.url))), e.w)
    e.sent = f['headers']
    headers(ctx, sel, e, s, e.sent)
    if x[3] == 'err':
        if e.kind == 'ok':
            Q.refute('request/one', 'unwritten', e.where, 'a connection although the request could not be written', s)
        else:
            Q.ok('request/one')
        return False
    Q.ok('request/one')
    return True


def chosen(e, s, which):
    """the key (version) chosen for the builder, or None"""
    if e.builder != 'make_builder':
        return None
    o = e.bargs[{'key': 2, 'version': 3}[which]]
    vi = e.ip.variant_of(s, o)
    return e.ip.enum_fields(s, o, 1)[0] if vi == 1 else None


def headers(ctx, sel, e, s, got):
    """the headers of the request against what the builder was given"""
    ip = e.ip
    Q = sel('req')
    got = hd(got)
    u = e.url
    seen = []

    def top(n, t=None):
        t = ht(ip, n) if t is None else t
        seen.append(t)
        l = hlayers(got, t)
        return l[0][1] if l[0][0] == 'set' else None

    def bad(n, msg):
        Q.refute('request/' + n, 'header-' + n, e.where, msg, s, shared=n == 'key')
    hostv = top('host')
    if has(s, u, 'host'):
        if hostv is None:
            bad('host', 'no Host header although the URL has a host')
        else:
            f = names(None, ip, hostv)
            Q.equal('request/host', 'header-host', e.where, 'name in the Host header', s, seqnorm(text_of(Dummy(ip, s), f['hostname'])), part(ip, u, 'host'), e.w)
            pv = ip.variant_of(s, f['port'])
            hp = has(s, u, 'port')
            if (pv == 1) != hp:
                bad('host', 'the Host header %s' % ('has a port the URL does not have' if pv else 'lacks the port of the URL',))
            elif pv == 1:
                Q.equal('request/host', 'header-host-port', e.where, 'port in the Host header', s, ip.enum_fields(s, f['port'], 1)[0], port(u), e.w)
    elif hostv is not None:
        bad('host', 'a Host header although the URL has no host')
    bt = basic_type(ip)
    av = top('auth', bt)
    n = lenof(('url', u, 'username'))
    if s.truth(mk_eq(n)):
        if av is not None:
            bad('auth', 'credentials although the URL has no user name')
    elif av is None:
        bad('auth', 'no credentials although the URL has a user name')
    else:
        f = names(None, ip, ip.expand(av)[2][0])
        Q.equal('request/auth', 'header-user', e.where, 'user name', s, seqnorm(text_of(Dummy(ip, s), f['username'])), part(ip, u, 'username'), e.w)
        pv = ip.variant_of(s, f['password'])
        if (pv == 1) != has(s, u, 'password'):
            bad('auth', 'the credentials %s a password' % ('have' if pv else 'lack',))
        elif pv:
            Q.equal('request/auth', 'header-password', e.where, 'password', s, seqnorm(text_of(Dummy(ip, s), ip.enum_fields(s, f['password'], 1)[0])), part(ip, u, 'password'), e.w)
    cv = top('connection')
    good = False
    if cv is not None:
        ps = elements(ip, ip.expand(cv)[2][0])
        good = len(ps) == 1 and vname(ip, ps[0], ip.variant_of(s, ps[0])) == 'ConnectionHeader' and \
            s.truth(ci_eq(text_of(Dummy(ip, s), ip.enum_fields(s, ps[0], ip.variant_of(s, ps[0]))[0]), bytes_seq(b'upgrade')))
    Q.ok('request/connection') if good else bad('connection', 'the Connection header of the request is not exactly Upgrade')
    uv = top('upgrade')
    good = False
    if uv is not None:
        ps = elements(ip, ip.expand(uv)[2][0])
        if len(ps) == 1:
            f = ip.expand(ps[0])[2]
            good = vname(ip, f[0], ip.variant_of(s, f[0])) == 'WebSocket' and ip.variant_of(s, f[1]) == 0
    Q.ok('request/upgrade') if good else bad('upgrade', 'the Upgrade header of the request is not exactly websocket')
    # version
    vv = top('version')
    cho = chosen(e, s, 'version')
    if vv is None:
        bad('version', 'the request does not carry a version')
    elif cho is None:
        if vname(ip, vv, ip.variant_of(s, vv)) != 'WebSocket13':
            bad('version', 'the version is not 13 although none was chosen')
        else:
            Q.ok('request/version')
    else:
        identical(Q, 'request/version', 'header-version', e.where, 'version in the request', s, ip, vv, cho, e.w)
    # key
    kv = top('key')
    e.key = kv
    cho = chosen(e, s, 'key')
    if kv is None:
        bad('key', 'the request does not carry a key')
    else:
        kb = byte_segs(kv, ip)
        if cho is not None:
            Q.equal('request/key', 'header-key', e.where, 'key in the request', s, seqnorm(kb), seqnorm(byte_segs(cho, ip)), e.w)
        else:
            rnd = [x[1] for x in s.ev[e.first:] if x[0] == 'random']
            old = [x[1] for x in s.ev[:e.first] if x[0] == 'random']
            kb = one_bytes(kb)
            j = ('no', 'it is not 16 bytes') if kb is None or len(kb) != 16 else freshness(kb, rnd, old)
            if j[0] == 'no':
                bad('key', 'the key is not freshly made: ' + j[1])
            elif j[0] == 'old':
                bad('key', 'the key of an earlier connection is used again')
            elif j[0] == 'unknown':
                Q.undecided('request/key', e.where, j[1])
            else:
                Q.ok('request/key')
    # everything else as given to the builder
    for t, x, y in hdiff(got, hd(builder_headers(e, s))):
        if t in seen:
            # not ours to set in this request: must be as given
            if t == seen[0] and not has(s, u, 'host') or t == bt and s.truth(mk_eq(n)):
                Q.refute('request/rest', 'rest', e.where, 'a header of the builder is changed', s)
            continue
        if len(x) == 1 and len(y) == 1 and x[0][0] == 'set' and y[0][0] == 'set' and ident_(ctx, ip, s, x[0][1], y[0][1]) is True:
            continue
        Q.refute('request/rest', 'rest', e.where, 'headers of the request: %s is not what the builder was given' % (
            'the rest' if t is None else ip.w.ts(t).split('::')[-1],), s)
        break
    else:
        Q.ok('request/rest')


def builder_headers(e, s):
    """the headers given to the builder"""
    if e.builder in ('make_builder', 'cleared_builder'):
        h = hd(e.ip.read(s, e.bargs[1][1], e.bargs[1][2]))
        from .http import hext, hnew
        return hext(hnew(e.ip), h)
    from .http import hnew
    return hnew(e.ip)


def basic_type(ip):
    for i, x in enumerate(ip.w.types):
        if x['k'] == 'adt' and x['path'].endswith('::Authorization') and any(isinstance(t, int) and ip.w.types[t].get('path', '').endswith('::Basic') for t in x['args']):
            return i
    raise Unsupported('type of credentials')


def one_bytes(kb):
    out = []
    for g in seqnorm(kb):
        if g[0] == 'k':
            out += list(g[1])
        elif g[0] == '1':
            out.append(g[1])
        elif g[0] == 's' and isinstance(g[3], int):
            out += [elem_u8(g[1], add(g[2], i)) for i in range(g[3])]
        else:
            return None
    return out


# ---------------------------------------------------------------------- response

def response(ctx, sel, e, s, r):
    """must the response be taken"""
    ip = e.ip
    P = sel('resp')
    f = names(None, ip, r)
    n = ip.expand(f['subject'])[2][0]
    taken = e.kind == 'ok'
    if not s.truth(mk_eq(sub(n, 101))):
        if taken:
            P.refute('response/status', 'status', e.where, 'a connection although the status is not 101', s)
            return
        P.ok('response/status')
        redirect = s.truth(mk_le(sub(300, n))) and s.truth(mk_le(sub(n, 399)))
        loc = hget(ip, s, f['headers'], ht(ip, 'location'))[0] if redirect else None
        err = find_error(ip, s, e.value)
        if redirect and loc is not None:
            if err[0] != 'RedirectError':
                P.refute('response/redirect', 'redirect', e.where, 'a redirect with a location is reported as %s' % err[0], s)
            else:
                P.equal('response/redirect', 'redirect-status', e.where, 'status of the redirect', s, number_of(ip, s, err[1][0]), n, e.w)
                P.equal('response/redirect', 'redirect-location', e.where, 'location of the redirect', s,
                        seqnorm(text_of(Dummy(ip, s), err[1][1])), seqnorm(text_of(Dummy(ip, s), ip.expand(loc)[2][0])), e.w)
        elif err[0] == 'RedirectError':
            P.refute('response/redirect', 'no-redirect', e.where, 'reported as a redirect although the response is none with a location', s)
        return
    h = f['headers']
    a = hget(ip, s, h, ht(ip, 'accept'))[0]
    why = None
    if a is None:
        why = 'accept', 'there is no accept header'
    else:
        x, y = seqnorm(byte_segs(a, ip)), seqnorm(byte_segs(accept_value(ip, e.key)))
        x, y = flat1(x), flat1(y)
        if len(x) != 20 or len(y) != 20:
            P.undecided('response/accept', e.where, 'accept value not resolved')
            return
        for p, q in zip(x, y):
            if not s.truth(mk_eq(sub(p, q))):
                why = 'accept', 'the accept value is not the one for the key that was sent'
                break
    u, k = e.shape
    maybe = False
    if why is None:
        if u is None or not any(p in ('WebSocket', 'WebSocket/') for p in u):
            why = 'upgrade', 'the Upgrade header is %s' % ('missing' if u is None else list(u),)
        elif tuple(u) != ('WebSocket',):
            maybe = True
    if why is None:
        up = False
        for i, o in enumerate(k or ()):
            if isinstance(o, bytes) and o.lower() == b'upgrade':
                up = True
            if o == '?' and s.truth(ci_eq((('s', ('opt', i), 0, lenof(('opt', i))),), bytes_seq(b'upgrade'))):
                up = True
        if not up:
            why = 'connection', 'the Connection header is %s' % ('missing' if k is None else list(k),)
    if why is not None:
        if taken:
            P.refute('response/' + why[0], why[0], e.where, 'a connection although ' + why[1], s)
            if why[0] == 'accept':
                sel('key').refute('response/accept', 'accept', e.where, 'a connection although ' + why[1], s)
        else:
            P.ok('response/' + why[0])
            if why[0] == 'accept':
                sel('key').ok('response/accept')
    elif not taken and not maybe:
        P.refute('response/taken', 'taken', e.where, 'a response that proves the handshake is refused (Upgrade %s, Connection %s)' % (list(u), list(k)), s)
    else:
        P.ok('response/taken')
        sel('key').ok('response/accept')


def flat1(segs):
    out = []
    for g in segs:
        if g[0] == '1':
            out.append(g[1])
        elif g[0] == 's' and isinstance(g[3], int):
            out.extend(elem_u8(g[1], add(g[2], i)) for i in range(g[3]))
        elif g[0] == 'k':
            out.extend(g[1])
        else:
            return []
    return out


def find_error(ip, s, v, depth=6):
    """(name of the innermost error variant, fields)"""
    last = ('?', ())
    while depth:
        depth -= 1
        while isinstance(v, tuple) and v and v[0] == 'p':
            v = ip.read(s, v[1], v[2])
        if not (isinstance(v, tuple) and v and v[0] in ('en', 'sy', 'et')) or ip.w.types[v[1]].get('adt') != 'enum':
            return last
        p = ip.w.types[v[1]].get('path', '')
        if not p.startswith(('websocket', 'core::result')):
            return last
        if v[0] == 'sy':
            return last
        vi = ip.variant_of(s, v)
        fs = ip.enum_fields(s, v, vi)
        last = (vname(ip, v, vi), fs)
        if not fs:
            return last
        v = fs[0]
    return last


# ---------------------------------------------------------------------- connection

def limits(e, s):
    if e.builder == 'make_builder':
        return e.bargs[4], e.bargs[5]
    return 100 * MIB, 200 * MIB


def connection(ctx, sel, e, s, x, r, stream):
    ip = e.ip
    d, m = limits(e, s)
    f = names(None, ip, r)
    if e.sync:
        after = x[2][2]
        rt = None
        for v in ip.expand(e.value)[2]:
            if isinstance(v, tuple) and v and v[0] in ('st', 'sy') and ip.w.types[v[1]].get('path') == 'hyper::buffer::BufReader':
                rt = v[1]
        if rt is None:
            raise Unsupported('reader of the connection')
        br = ('st', rt, tuple(after))
        groups = {0: (sel('bytes'), 'connection/buffer', 'the connection does not start with the unread bytes (stream, buffer, position, end)'),
                  1: (sel('resp'), 'connection/headers', 'the headers of the connection are not the ones of the response'),
                  2: (sel('out'), 'connection/mask-out', 'the connection is not one that sends masked frames'),
                  3: (sel('in'), 'connection/mask-in', 'the connection is not one that expects unmasked frames'),
                  4: (sel('limit'), 'connection/frame-limit', 'frame limit of the connection'),
                  5: (sel('limit'), 'connection/message-limit', 'message limit of the connection'),
                  None: (sel('bytes'), 'connection/fresh', 'the connection does not start in the initial state')}
        groups = {k: v for k, v in groups.items() if not muted(v[0])}
        if groups:
            compare(ctx, ip, s, e.value, 'new_client', [br, f['headers'], 1, 0, d, m], groups, e.where)
        return
    client, hs = ip.expand(e.value)[2]
    fr = framed(ip, client)
    f2 = x[2][1]
    BY = sel('bytes')
    if not muted(BY):
        identical(BY, 'connection/stream', 'conn-stream', e.where, 'the connection is not on the stream the handshake was made on', s, ip, bare(ip, s, fr[3]), bare(ip, s, stream), e.w)
        identical(BY, 'connection/buffer', 'conn-buffer', e.where, 'the bytes already read are not kept', s, ip, fr[5], f2[5], e.w)
    P = sel('resp')
    if not muted(P):
        identical(P, 'connection/headers', 'conn-headers', e.where, 'the headers handed out are not the ones of the response', s, ip, hs, f['headers'], e.w)
    ct = ip.sym(probe(ctx, 'new_codec')['locals'][1], 'ctx')[1]
    side = ('en', ct, vi_of(ip, ct, 'Client'), ())
    groups = {0: (sel('out') if not muted(sel('out')) else sel('in'), 'connection/context', 'the codec is not one for the client side'),
              1: (sel('limit'), 'connection/frame-limit', 'frame limit of the connection'),
              2: (sel('limit'), 'connection/message-limit', 'message limit of the connection'),
              None: (sel('bytes'), 'connection/fresh', 'the codec does not start in the initial state')}
    groups = {k: v for k, v in groups.items() if not muted(v[0])}
    if groups:
        compare(ctx, ip, s, fr[4], 'new_codec', [side, d, m], groups, e.where)


# ---------------------------------------------------------------------- sweeps

PLAIN = dict(host=True, port=False, query=False, password=False, user=False)
OPEN = dict(host=None, port=None, query=None, password=None, user=None)
BOTH = ('connect_on', 'async_connect_on')
TCP = tuple(n for n in CALLS if CALLS[n][0] == 'tcp')


def sweep(ctx, groups, name, need=('ok', 'err'), **kw):
    """judges every outcome of the call in one scenario"""
    sel = Sel(ctx, groups)
    k = {'ok': 0, 'err': 0}

    def go():
        for e in calls(ctx, name, **kw):
            k[e.kind] += 1

            def one(s):
                judge(ctx, sel, e, s)
                return []
            runsplit(e.st, one)
    ctx.guard('modelled', B + name, go)
    for n in need:
        if not k[n]:
            ctx.undecided('coverage', B + name, 'no outcome %s in %s: %s' % (n, kw, k))
    return k


def responses(ctx, groups=('resp',)):
    for name in BOTH:
        n = 0
        shapes = [(u, (b'upgrade',)) for u in UPGRADES] + [(('WebSocket',), k) for k in CONNS] + [(None, None), (('H2c',), (b'x',))]
        for sh in shapes:
            good = sh[0] == ('WebSocket',) and sh[1] is not None and any(isinstance(o, bytes) and o.lower() == b'upgrade' or o == '?' for o in sh[1])
            k = sweep(ctx, groups, name, ('ok', 'err') if good else ('err',), shape=sh, url=PLAIN, builder='plain_builder')
            n += sum(k.values())
        sweep(ctx, groups, name, shape=GOOD, url=PLAIN)
        ctx.samples.append('%s%s: %d shapes of Upgrade and Connection, %d outcomes' % (B, name, len(shapes), n))


def requests(ctx, groups=('req',), only=BOTH):
    for name in only:
        for b in ('make_builder', 'cleared_builder', 'plain_builder'):
            sweep(ctx, groups, name, ('err',), shape=(None, None), url=OPEN, builder=b, mute=True)
        sweep(ctx, groups, name, shape=GOOD, url=PLAIN)
    if 'connect_on' in only:
        sweep(ctx, groups, 'connect_on', shape=GOOD, url=PLAIN, builder='plain_builder', again=True)


def connections(ctx, groups, only=None):
    """what is handed out, by every connect call"""
    for name in only or CALLS:
        for b in ('make_builder', 'plain_builder'):
            sweep(ctx, groups, name, shape=GOOD, url=PLAIN, builder=b)


def routes(ctx, groups=('route',), only=TCP):
    for name in only:
        for sch in (b'ws', b'wss', b'http', b'https', None):
            sweep(ctx, groups, name, ('err',), shape=(None, None), scheme=sch, url=dict(PLAIN, host=None, port=None), builder='plain_builder', mute=True)
            sweep(ctx, groups, name, shape=GOOD, scheme=sch, url=PLAIN, builder='plain_builder')
        sweep(ctx, groups, name, ('err',), shape=(None, None), scheme=b'wss', url=dict(PLAIN, port=None, user=None), builder='make_builder', mute=True)
