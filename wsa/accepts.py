"""Accepting and rejecting an upgrade: what is written and what is handed out (C11, C15, C16, C19, roles)"""
from .check import *
from .terms import *
from .models import runsplit
from .senders import probe
from .frames import Sel
from .http import hd, hget, hlayers, hdiff, run_future, typ, flat, text_of, ci_eq, known_text, hnew, hset, hext, b64_seq, sha1_of, framed
from .upgrade import names, ht, vi_of, vname, string, UP
from .opaque import ident_, identical, heads
from .conn import compare

GUID = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
MIB = 1 << 20
SYNC, ASYNC = UP + 'sync.rs:WsUpgrade::', UP + 'async.rs:WsUpgrade::'
ACCEPTS = [('accept', SYNC + 'accept', None, None), ('accept_with', SYNC + 'accept_with', 1, None),
           ('accept_limits', SYNC + 'accept_with_limits', None, 1), ('accept_both', SYNC + 'accept_with_headers_and_limits', 1, 2),
           ('async_accept', ASYNC + 'accept', None, None), ('async_accept_with', ASYNC + 'accept_with', 1, None),
           ('async_accept_limits', ASYNC + 'accept_with_limits', None, 1), ('async_accept_both', ASYNC + 'accept_with_headers_and_limits', 1, 2)]
REJECTS = [('reject', SYNC + 'reject', None), ('reject_with', SYNC + 'reject_with', 1),
           ('async_reject', ASYNC + 'reject', None), ('async_reject_with', ASYNC + 'reject_with', 1)]
MANDATORY = ('accept', 'connection', 'upgrade')


class Out:
    """one outcome: kind ok/err, value, st, ip, up (fields of the upgrade), custom (headers or None), limits"""


def accept_value(ip, key):
    """specified bytes of the accept header for a key value"""
    kb = byte_segs(key, ip)
    return sha1_of(ip, tuple(b64_seq(kb)) + tuple(bytes_seq(GUID)))


def byte_segs(v, ip=None):
    """the bytes of an array, possibly wrapped in structs of one field"""
    while True:
        if v[0] == 'sy' and ip is not None:
            v = ip.expand(v)
        if v[0] in ('vec', 'bm'):
            return v[2]
        if v[0] == 'st' and len(v[2]) == 1:
            v = v[2][0]
            if is_num(v):
                return (('1', v),)
        elif v[0] == 'st' and all(is_num(x) for x in v[2]):
            return tuple(('1', x) for x in v[2])
        else:
            raise Unsupported('bytes')


def outcomes(ctx, name, where, custom, lim):
    w = ctx.world('probe')
    fn = probe(ctx, name)
    ip = ctx.interp('probe')
    st = State()
    args = ctx.args(ip, fn)
    # an upgrade exists only for a request that was validated, so the request has a key (C14)
    up = names(None, ip, args[0])
    req = names(None, ip, up['request'])
    kt = ht(ip, 'key')
    ip.hfix = {(hd(req['headers'])[2], kt): ip.expand(ip.sym(kt, 'requestkey'))}
    a_sync = not name.startswith('async')
    for o in ctx.run(ip, fn, args, st):
        if o[0] == 'ret' and not a_sync:
            v = o[2]
            outs = runsplit(o[1], lambda s: run_future(ip, s, 0, v))
        else:
            outs = [o]
        for o2 in outs:
            if o2[0] == 'unk':
                ctx.undecided('modelled', where, str(o2[2])[:300])
                continue
            if o2[0] == 'panic':
                ctx.refute('no-panic', 'panic', where, 'panics (%s at %s)' % (o2[2][1], o2[2][2]), o2[1])
                continue
            a = Out()
            a.ip, a.w, a.st, a.sync, a.where, a.name = ip, w, o2[1], a_sync, where, name
            a.up, a.req, a.key = up, req, ip.hfix[(hd(req['headers'])[2], kt)]
            a.custom = None if custom is None else ip.read(a.st, args[custom][1], args[custom][2])
            a.limits = (100 * MIB, 200 * MIB) if lim is None else (args[lim], args[lim + 1])
            if a_sync:
                def pick(s):
                    vi = ip.variant_of(s, o2[2])
                    b = Out()
                    b.__dict__.update(a.__dict__)
                    b.st = s
                    b.kind, b.value = ('ok', 'err')[vi], ip.enum_fields(s, o2[2], vi)[0]
                    return [b]
                for b in runsplit(o2[1], pick):
                    yield b
            else:
                a.kind, a.value = o2[2]
                yield a


def spec_headers(a, accept=True):
    h = hd(a.up['headers'])
    if a.custom is not None:
        h = hext(h, a.custom)
    return h


def check_headers(ctx, sel, a, s, got, accept):
    """got: header value that goes out"""
    ip = a.ip
    want = spec_headers(a)
    skip = []
    if accept:
        for n in MANDATORY:
            t = ht(ip, n)
            skip.append(t)
            key = 'header-' + n
            l = hlayers(got, t)
            if l[0][0] != 'set':
                sel('resp').refute('response/' + n, key, a.where, 'the response does not set the %s header itself' % n, s)
                if n == 'accept':
                    sel('key').refute('response/' + n, key, a.where, 'the response does not set the accept header', s)
                continue
            v = l[0][1]
            if n == 'accept':
                x = ip.expand(v)
                y = accept_value(ip, a.key)
                for g in ('resp', 'key'):
                    check_accept(sel(g), a, s, x, y, key)
            elif n == 'upgrade':
                ps = elements(ip, ip.expand(v)[2][0])
                good = len(ps) == 1 and ip.expand(ps[0])[0] == 'st'
                if good:
                    f = ip.expand(ps[0])[2]
                    good = vname(ip, f[0], ip.variant_of(s, f[0])) == 'WebSocket' and ip.variant_of(s, f[1]) == 0
                (sel('resp').ok('response/upgrade') if good else
                 sel('resp').refute('response/upgrade', key, a.where, 'the Upgrade header of the response is not exactly websocket', s))
            else:
                ps = elements(ip, ip.expand(v)[2][0])
                good = len(ps) == 1
                if good:
                    o = ps[0]
                    good = vname(ip, o, ip.variant_of(s, o)) == 'ConnectionHeader'
                    if good:
                        tx = text_of(Dummy(ip, s), ip.enum_fields(s, o, ip.variant_of(s, o))[0])
                        good = s.truth(ci_eq(tx, bytes_seq(b'upgrade')))
                (sel('resp').ok('response/connection') if good else
                 sel('resp').refute('response/connection', key, a.where, 'the Connection header of the response is not exactly Upgrade', s))
    d = hdiff(hd(got), want)
    r = True
    for t, x, y in d:
        if t in skip:
            continue
        if len(x) == 1 and len(y) == 1 and x[0][0] == 'set' and y[0][0] == 'set' and ident_(ctx, ip, s, x[0][1], y[0][1]) is True:
            continue
        r = False
        sel('resp').refute('response/headers', 'headers', a.where, 'headers of the response: %s differs from the headers given (%s instead of %s)' % (
            'the rest' if t is None else ip.w.ts(t).split('::')[-1], str(x)[:120], str(y)[:120]), s)
    if r:
        sel('resp').ok('response/headers')


class Dummy:
    def __init__(self, ip, st):
        self.ip, self.st = ip, st

    def read(self, p):
        return self.ip.read(self.st, p[1], p[2])


def elements(ip, v):
    if v[0] != 'vec' or any(g[0] != '1' for g in v[2]):
        raise Unsupported('list')
    return [g[1] for g in v[2]]


def sha_input(v):
    """the hashed text when v is the whole digest in order"""
    segs = seqnorm(byte_segs(v))
    if len(segs) != 20 or any(g[0] != '1' or isinstance(g[1], int) for g in segs):
        return None
    nm = None
    for i, g in enumerate(segs):
        t = one_tab(g[1])
        if not t or g[1] != ident(t[0]) or not (isinstance(t[0][1], tuple) and len(t[0][1]) == 2 and t[0][1][1] == i):
            return None
        if nm is None:
            nm = t[0][1][0]
        elif nm != t[0][1][0]:
            return None
    return nm[1] if isinstance(nm, tuple) and nm[0] == 'sha1' else None


def check_accept(sel, a, s, x, y, key):
    p, q = sha_input(x), sha_input(y)
    msg = 'the accept value is not SHA-1 of the base64 text of the request key and the GUID'
    if p is not None:
        r = sel.same(s, p, q)
        if p == q or r is True:
            sel.ok('response/accept')
        else:
            sel.refute('response/accept', key, a.where, msg + ' (hashed: %s)' % (sel.show(p, a.w),), s)
        return
    sel.equal('response/accept', key, a.where, msg, s, byte_segs(x), byte_segs(y), a.w)


def norm_text(ip, s, segs):
    """replaces rendered values whose text is known"""
    out = []
    for g in seqnorm(segs):
        if g[0] == 'o' and isinstance(g[1], tuple) and g[1][:2] == ('disp', 'display'):
            v = g[1][2]
            if v[0] == 'et':
                vi = ip.variant_of(s, v)
                v = ('en', v[1], vi, ())
            t = known_text(ip, v) if v[0] == 'en' else None
            if t is not None:
                out.extend(bytes_seq(t))
                continue
        out.append(g)
    return seqnorm(tuple(out))


def text(segs):
    """[bytes | segment]"""
    out = []
    for g in segs:
        b = g[1] if g[0] == 'k' else bytes([g[1]]) if g[0] == '1' and isinstance(g[1], int) else None
        if b is None:
            out.append(g)
        elif out and isinstance(out[-1], bytes):
            out[-1] += b
        else:
            out.append(b)
    return out


def check_response(ctx, sel, a, s, accept):
    ip = a.ip
    status = b'101 Switching Protocols' if accept else b'400 Bad Request'
    stv = 'SwitchingProtocols' if accept else 'BadRequest'
    R = sel('resp')
    vv = a.req['version']
    vi = ip.variant_of(s, vv)
    ver = known_text(ip, ('en', ip.expand(vv)[1] if vv[0] == 'sy' else vv[1], vi, ()))
    if a.sync:
        ws = [e for e in s.ev if e[0] == 'write']
        if len(ws) == 1 and a.kind == 'ok' and not any(e[0] == 'loop' for e in s.ev):
            R.holds('response/one', 'partial', a.where, 'the response is given to a write that may take only a part of it', s, mk_eq(sub(ws[0][3], seqlen(ws[0][2]))))
            return
        xs = [e for e in s.ev if e[0] not in ('wr', 'wr!', 'flush', 'flush!', 'prealloc')]
        if xs:
            R.undecided('response/one', a.where, 'events %s' % ([e[:2] for e in xs],))
            return
        es = [e for e in s.ev if e[0] in ('wr', 'wr!')]
        sid = a.up['stream'][2]
        if any(e[1] != sid for e in es):
            R.refute('response/stream', 'stream', a.where, 'the response is written to something else', s)
            return
        bad = [i for i, e in enumerate(es) if e[0] == 'wr!']
        if bad and bad[0] != len(es) - 1:
            R.refute('response/one', 'after-failure', a.where, 'writing goes on after a failure', s)
            return
        failed = bool(bad)
        got = norm_text(ip, s, sum((tuple(e[2]) for e in es), ()))
        tx = text(got)
        hs = [i for i, g in enumerate(tx) if not isinstance(g, bytes) and g[0] == 'o' and g[1][:2] == ('disp', 'display') and g[1][2][0] in ('hd', 'sy')]
        full = ver + b' ' + status + b'\r\n'
        if failed and a.kind == 'err' and len(hs) == 0:
            # only the beginning was given to the stream
            if not tx or len(tx) == 1 and isinstance(tx[0], bytes) and full.startswith(tx[0]):
                R.ok('response/text')
            else:
                R.undecided('response/text', a.where, 'text of a failed write not resolved: ' + ctx.show(got, a.w))
        elif len(hs) != 1 or len(tx) > 3:
            if all(isinstance(g, bytes) for g in tx):
                R.refute('response/text', 'text', a.where, 'the response is %s' % (tx,), s)
            else:
                R.undecided('response/text', a.where, 'text not resolved: ' + ctx.show(got, a.w))
            return
        else:
            i = hs[0]
            rest = tx[i + 1:]
            if tx[:i] != [full] or rest != [b'\r\n'] and not (failed and not rest):
                R.refute('response/text', 'text', a.where, 'the response is %r headers %r instead of %r headers %r' % (tx[:i], tx[i + 1:], full, b'\r\n'), s)
            else:
                R.ok('response/text')
            check_headers(ctx, sel, a, s, tx[i][1][2], accept)
    else:
        es = [e for e in s.ev if e[0] == 'x']
        if [e[1] for e in es] != ['send']:
            R.refute('response/one', 'sends-%d' % len(es), a.where, 'not exactly one response is sent (%s)' % ([e[1] for e in es],), s)
            return
        fr, item = es[0][2]
        failed = es[0][3] == 'err'
        ct = ip.w.types[fr[4][1]].get('path', '')
        if not ct.endswith('HttpServerCodec'):
            R.refute('response/codec', 'codec', a.where, 'the response is not encoded as an HTTP response head', s)
            return
        identical(R, 'response/stream', 'stream', a.where, 'the response is written to something else', s, ip, fr[3], a.up['stream'], a.w)
        if seqnorm(fr[6][2]):
            R.refute('response/one', 'more', a.where, 'something else is written before the response', s)
        f = names(None, ip, item)
        identical(R, 'response/version', 'version', a.where, 'version of the response', s, ip, f['version'], vv, a.w)
        n = vname(ip, f['subject'], ip.variant_of(s, f['subject']))
        if n != stv:
            R.refute('response/status', 'status', a.where, 'status %s instead of %s' % (n, stv), s)
        else:
            R.ok('response/status')
        check_headers(ctx, sel, a, s, f['headers'], accept)
    if failed and a.kind == 'ok':
        R.refute('response/first', 'unwritten', a.where, 'success although the response could not be written', s)
    elif not failed and a.kind == 'err':
        R.refute('response/first', 'error', a.where, 'an error although the response was written', s)
    else:
        R.ok('response/first')
    return failed


def stream_pieces(ip, st, up):
    """expected (buffer kind, values)"""
    return up['buffer']


def check_connection(ctx, sel, a, s):
    ip = a.ip
    d, m = a.limits
    g = {}
    if a.sync:
        buf = a.up['buffer']
        bi = ip.variant_of(s, buf)
        inner = a.up['stream']
        brt = [t for t in ip.w.types[ip.expand(a.value)[1]]['variants'][0][2] if True]
        want_br = reader_value(ip, s, a, bi)
        got_h = find_headers(ip, a.value)
        groups = {0: (sel('bytes'), 'connection/buffer', 'the connection does not start with the unread bytes (stream, buffer, position, end)'),
                  2: (sel('out'), 'connection/mask-out', 'the connection is not one that sends unmasked frames'),
                  3: (sel('in'), 'connection/mask-in', 'the connection is not one that expects masked frames'),
                  4: (sel('limit'), 'connection/frame-limit', 'frame limit of the connection'),
                  5: (sel('limit'), 'connection/message-limit', 'message limit of the connection'),
                  None: (sel('bytes'), 'connection/fresh', 'the connection does not start in the initial state')}
        groups = {k: v for k, v in groups.items() if not muted(v[0])}
        if groups:
            compare(ctx, ip, s, a.value, 'new_client', [want_br, got_h, 0, 1, d, m], groups, a.where)
    else:
        pair = ip.expand(a.value)
        client, headers = pair[2]
        fr = framed(ip, client)
        es = [e for e in s.ev if e[0] == 'x' and e[1] == 'send']
        B = sel('bytes')
        identical(B, 'connection/stream', 'stream', a.where, 'the connection is not on the stream of the upgrade', s, ip, fr[3], a.up['stream'], a.w)
        identical(B, 'connection/buffer', 'buffer', a.where, 'the bytes already read are not kept', s, ip, fr[5], a.up['buffer'], a.w)
        ct = ip.sym(probe(ctx, 'new_codec')['locals'][1], 'ctx')[1]
        server = ('en', ct, vi_of(ip, ct, 'Server'), ())
        groups = {0: (sel('out') if not muted(sel('out')) else sel('in'), 'connection/context', 'the codec is not one for the server side'),
                  1: (sel('limit'), 'connection/frame-limit', 'frame limit of the connection'),
                  2: (sel('limit'), 'connection/message-limit', 'message limit of the connection'),
                  None: (sel('bytes'), 'connection/fresh', 'the codec does not start in the initial state')}
        groups = {k: v for k, v in groups.items() if not muted(v[0])}
        if groups:
            compare(ctx, ip, s, fr[4], 'new_codec', [server, d, m], groups, a.where)


def muted(x):
    from .frames import Mute
    return isinstance(x, Mute)


def reader_value(ip, s, a, bi):
    rt = None
    for i, x in enumerate(ip.w.types):
        if x['k'] == 'adt' and x['path'] == 'hyper::buffer::BufReader':
            rt = i if rt is None or True and ip.w.types[i]['args'][:1] == [a.up['stream'][1]] else rt
    if bi == 0:
        # any buffer will do as long as nothing in it is unread
        for x in ip.expand(a.value)[2]:
            if isinstance(x, tuple) and x and x[0] in ('st', 'sy') and ip.w.types[x[1]].get('path') == 'hyper::buffer::BufReader':
                g = ip.expand(x)[2]
                return ('st', rt, (a.up['stream'], g[1], g[2], g[2]))
        raise Unsupported('reader of the connection')
    b = names(None, ip, ip.enum_fields(s, a.up['buffer'], 1)[0])
    return ('st', rt, (a.up['stream'], b['buf'], b['pos'], b['cap']))


def find_headers(ip, v):
    for x in ip.expand(v)[2]:
        if isinstance(x, tuple) and x and (x[0] == 'hd' or x[0] == 'sy' and ip.w.types[x[1]].get('path') == 'hyper::header::Headers'):
            return x
    raise Unsupported('headers of the connection')


def accepts(ctx, groups, only=None):
    sel = Sel(ctx, groups)
    n = {}
    for name, where, custom, lim in ACCEPTS:
        ctx.guard('modelled', where, one_accept, ctx, sel, name, where, custom, lim, n)
    return n


def one_accept(ctx, sel, name, where, custom, lim, n):
    k = {'ok': 0, 'err': 0}
    for a in outcomes(ctx, name, where, custom, lim):
        k[a.kind] += 1

        def judge(s):
            failed = check_response(ctx, sel, a, s, True)
            if a.kind == 'ok' and failed is False:
                check_connection(ctx, sel, a, s)
            if a.kind == 'err' and a.sync:
                x = ip_pair(a)
                if x is not None:
                    identical(sel('resp'), 'response/error', 'error-stream', where, 'the failed accept does not give back the stream', s, a.ip, x[0], a.up['stream'], a.w)
            return []
        runsplit(a.st, judge)
    if not k['ok'] or not k['err']:
        ctx.undecided('coverage', where, 'outcomes %s' % k)
    ctx.samples.append('%s: %d successes, %d failures' % (where, k['ok'], k['err']))


def ip_pair(a):
    v = a.ip.expand(a.value)
    return v[2] if v[0] == 'st' and len(v[2]) == 2 else None


def rejects(ctx, groups):
    sel = Sel(ctx, groups)
    for name, where, custom in REJECTS:
        ctx.guard('modelled', where, one_reject, ctx, sel, name, where, custom)


def one_reject(ctx, sel, name, where, custom):
    k = {'ok': 0, 'err': 0}
    for a in outcomes(ctx, name, where, custom, None):
        k[a.kind] += 1

        def judge(s):
            check_response(ctx, sel, a, s, False)
            v = a.value
            if a.sync and a.kind == 'err':
                v = ip_pair(a)[0]
            if not a.sync:
                if a.kind == 'err':
                    return []
                fr = framed(a.ip, v)
                identical(sel('bytes'), 'reject/buffer', 'buffer', where, 'the bytes already read are not kept', s, a.ip, fr[5], a.up['buffer'], a.w)
                v = fr[3]
            identical(sel('resp'), 'reject/stream', 'reject-stream', where, 'the stream is not given back', s, a.ip, v, a.up['stream'], a.w)
            return []
        runsplit(a.st, judge)
    if not k['ok'] or not k['err']:
        ctx.undecided('coverage', where, 'outcomes %s' % k)
