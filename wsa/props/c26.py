"""Errors keep their cause and their kind"""
from ..check import *
from ..terms import *
from ..frames import variant, option
from ..opaque import identical, table, ident_
from ..pure import each

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every conversion between error types and of every source function for every variant with opaque payloads: the variant of the '
               'result and the identity of what it carries are compared with the table of kinds.')
R = 'src/result.rs:'
B = 'websocket-base/src/result.rs:'
U = 'src/server/upgrade/mod.rs:'
H = 'src/codec/http.rs:'
# conversion -> place, {variant of the source (None: any value): variant of the result}
TABLE = {
    'ws_of_utf8': (B + 'WebSocketError::from<Utf8Error>', {None: 'Utf8Error'}),
    'ws_of_other': (R + 'WebSocketError::from<WebSocketOtherError>', {None: 'Other'}),
    'other_of_http': (R + 'WebSocketOtherError::from<hyper::Error>', {None: 'HttpError'}),
    'other_of_url': (R + 'WebSocketOtherError::from<ParseError>', {None: 'UrlError'}),
    'other_of_tls': (R + 'WebSocketOtherError::from<native_tls::Error>', {None: 'TlsError'}),
    'other_of_tls_handshake': (R + 'WebSocketOtherError::from<HandshakeError>', {'Failure': 'TlsHandshakeFailure', 'WouldBlock': 'TlsHandshakeInterruption'}),
    'other_of_codec': (R + 'WebSocketOtherError::from<HttpCodecError>', {'Io': 'IoError', 'Http': 'HttpError'}),
    'other_of_wsurl': (R + 'WebSocketOtherError::from<WSUrlErrorKind>', {None: 'WebSocketUrlError'}),
    'upgrade_of_io': (U + 'HyperIntoWsError::from<io::Error>', {None: 'Io'}),
    'upgrade_of_http': (U + 'HyperIntoWsError::from<hyper::Error>', {None: 'Parsing'}),
    'upgrade_of_codec': (U + 'HyperIntoWsError::from<HttpCodecError>', {'Io': 'Io', 'Http': 'Parsing'}),
    'codec_of_io': (H + 'HttpCodecError::from<io::Error>', {None: 'Io'}),
    'codec_of_http': (H + 'HttpCodecError::from<hyper::Error>', {None: 'Http'}),
    'other_of_upgrade': (R + 'WebSocketOtherError::from<HyperIntoWsError>', {
        'Io': 'IoError', 'Parsing': 'HttpError', 'MethodNotGet': 'ProtocolError', 'UnsupportedHttpVersion': 'ProtocolError', 'UnsupportedWebsocketVersion': 'ProtocolError',
        'NoSecWsKeyHeader': 'ProtocolError', 'NoWsUpgradeHeader': 'ProtocolError', 'NoUpgradeHeader': 'ProtocolError', 'NoWsConnectionHeader': 'ProtocolError',
        'NoConnectionHeader': 'ProtocolError'}),
}
WORDS = {'MethodNotGet': (b'method',), 'UnsupportedHttpVersion': (b'http', b'version'), 'UnsupportedWebsocketVersion': (b'websocket', b'version'),
         'NoSecWsKeyHeader': (b'key',), 'NoWsUpgradeHeader': (b'upgrade',), 'NoUpgradeHeader': (b'upgrade',), 'NoWsConnectionHeader': (b'connection',),
         'NoConnectionHeader': (b'connection',)}
# which variants carry a cause
CAUSES = {
    'source_ws': (B + 'WebSocketError::source', ('IoError', 'Utf8Error', 'Other')),
    'source_other': (R + 'WebSocketOtherError::source', ('HttpError', 'UrlError', 'IoError', 'TlsError', 'WebSocketUrlError')),
    'source_upgrade': (U + 'HyperIntoWsError::source', ('Io', 'Parsing')),
    'source_codec': (H + 'HttpCodecError::source', ('Io', 'Http')),
}


def io_kind(ctx):
    """an I/O error is the no-data error iff its kind is UnexpectedEof"""
    at = B + 'WebSocketError::from<io::Error>'
    seen = {}
    for w, ip, args, vals, s, r in each(ctx, 'ws_of_io', at, depth=0):
        e = vals[0]
        name = variant(w, r)
        seen[name] = seen.get(name, 0) + 1
        f, vs = kind_atom(w, s, e)
        if f is None:
            ctx.undecided('io', at, 'the kind of the error is not looked at in a form the analysis resolves')
            continue
        i = vs.index('UnexpectedEof')
        for s1, (eof,) in ctx.cases(s, tab(f, tuple(int(k == i) for k in range(f[2])))):
            if bool(eof) != (name == 'NoDataAvailable'):
                ctx.refute('io', 'kind', at, 'an unexpected end of file becomes %s' % name if eof else 'another I/O error becomes %s' % name, s1)
            elif eof:
                ctx.ok('io')
            elif name != 'IoError':
                ctx.refute('io', 'kind', at, 'an I/O error becomes %s' % name, s1)
            else:
                identical(ctx, 'io', 'cause', at, 'the I/O error does not carry the original', s1, ip, r[3][0], e, w)
    for n in ('NoDataAvailable', 'IoError'):
        if n not in seen:
            ctx.undecided('io', at, 'no outcome ' + n)


def kind_atom(w, s, e):
    """finite atom of the kind of an I/O error value and the names of its kinds"""
    nm = ('kind', e[2])
    for t in w.types:
        if t['k'] == 'adt' and t.get('path', '').endswith('ErrorKind') and t['variants'] and any(v[0] == 'UnexpectedEof' for v in t['variants']):
            vs = [v[0] for v in t['variants']]
            return ('f', nm, len(vs)), vs
    return None, None


def kinds(ctx):
    for name in sorted(TABLE):
        at, tb = TABLE[name]
        ctx.guard('modelled', at, kind, ctx, name, at, tb)


def kind(ctx, name, at, tb):
    seen = set()
    texts = {}
    for w, ip, args, vals, s0, r in each(ctx, name, at, depth=0):
        v = vals[0]
        for s, vi in [(s0, None)] if None in tb else variants(ip, s0, v):
            one(ctx, w, ip, at, tb, v, vi, s, r, seen, texts)
    for k in tb:
        if k not in seen:
            ctx.undecided('kind', at, 'no outcome for %s' % k)


def one(ctx, w, ip, at, tb, v, vi, s, r, seen, texts):
    src = None if vi is None else w.types[v[1]]['variants'][vi][0]
    if src not in tb:
        ctx.undecided('kind', at, 'unknown variant ' + src)
        return
    seen.add(src)
    got = variant(w, r)
    if got is None:
        ctx.undecided('kind', at, 'result not resolved')
        return
    if got != tb[src]:
        ctx.refute('kind', 'variant', at, '%s becomes %s instead of %s' % (src or 'the error', got, tb[src]), s)
        return
    ctx.ok('kind')
    if got in ('TlsHandshakeFailure', 'TlsHandshakeInterruption'):
        return
    want = v if src is None else (ip.enum_fields(s, v, vi) or (None,))[0]
    if want is None:
        t = text(ip, s, r[3][0])
        if t is None:
            ctx.undecided('message', at, 'message not resolved')
        elif any(x not in t.lower() for x in WORDS[src]):
            ctx.refute('message', 'message', at, '%s is described as "%s"' % (src, t.decode('utf8', 'replace')), s)
        elif t in texts and texts[t] != src:
            ctx.refute('message', 'message', at, '%s and %s are described alike' % (src, texts[t]), s)
        else:
            ctx.ok('message')
        texts[t] = src
        return
    x = r[3][0]
    if x[0] == 'p' and want[0] != 'p':
        x = ip.read(s, x[1], x[2])
    identical(ctx, 'carries', 'cause', at, 'the error does not carry the original', s, ip, x, want, w)


def text(ip, s, v):
    segs = seqnorm(ip.seq_of(s, v)[0]) if v[0] == 'p' else ()
    return b''.join(g[1] for g in segs) if segs and all(g[0] == 'k' for g in segs) else None


def sources(ctx):
    for name in sorted(CAUSES):
        at, cs = CAUSES[name]
        ctx.guard('modelled', at, source, ctx, name, at, cs)


def source(ctx, name, at, cs):
    extra = table(pures=('Error::source',))
    seen = set()
    for w, ip, args, vals, s, r in each(ctx, name, at, extra=lambda: extra, depth=0):
        v = vals[0]
        for s1, vi in variants(ip, s, v):
            src = w.types[v[1]]['variants'][vi][0]
            seen.add(src)
            x = None if r[0] == 'en' and variant(w, r) == 'None' else r
            if src not in cs:
                if r[0] != 'en':
                    ctx.undecided('source', at, 'source of %s not resolved' % src)
                else:
                    ctx.ok('source')
                continue
            if x is None:
                ctx.refute('source', 'hidden', at, 'the cause carried by %s is not exposed' % src, s1)
                continue
            if r[0] == 'en':
                p = r[3][0]
                want = args[0]
                ok = p[0] == 'p' and p[1] == want[1] and len(p[2]) >= len(want[2]) + 1 or p[0] == 'p' and isinstance(p[1], tuple) and refers(p[1], v)
                if not ok:
                    ctx.refute('source', 'other', at, 'the source of %s is not what it carries' % src, s1)
                else:
                    ctx.ok('source')
            elif src == 'Other' and r[0] == 'sy' and isinstance(r[2], tuple) and r[2][0] == 'call' and r[2][1].endswith('source'):
                ctx.ok('source')    # the source of the wrapped error
            else:
                ctx.undecided('source', at, 'source of %s not resolved' % src)
    for k in cs:
        if k not in seen:
            ctx.undecided('source', at, 'no outcome for %s' % k)


def refers(cell, v):
    """a cell owned by the value v (a box in one of its fields)"""
    return len(cell) > 1 and isinstance(cell[1], tuple) and cell[1][:1] == (v[2] if v[0] == 'sy' else None,)


def variants(ip, s, v):
    from ..models import runsplit
    return runsplit(s, lambda x: [(x, ip.variant_of(x, v))])


def run(ctx):
    ctx.guard('io', B, io_kind, ctx)
    kinds(ctx)
    sources(ctx)
    ctx.rules += ['From<io::Error>: NoDataAvailable iff kind() == UnexpectedEof, otherwise IoError(the same error)',
                  'every other From: the variant of the same kind, its payload is the argument (or the payload of the argument)',
                  'source(e) is Some(reference into e) for every variant that carries a cause (for a wrapped error: the wrapped error or its source)']
