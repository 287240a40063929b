"""A connection becomes upgradable only if its request is a WebSocket handshake"""
from ..check import *
from ..terms import *
from ..models import runsplit
from ..upgrade import *

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the four ways into a pending upgrade (raw stream, stream with parsed request, HTTP server request, asynchronous stream) with the parsed '
               'request unknown: every method, HTTP version, key and WebSocket version header, and every class of Upgrade and Connection list up to three entries (any letter '
               'case, unknown names). Each success is checked against all requirements of the statement, each failure against the requirement its error kind names.')


def run(ctx):
    for way in sorted(WAYS):
        name, at = WAYS[way]
        ctx.guard('modelled', at, one, ctx, way, at)
    ctx.rules.append('Ok iff GET, HTTP >= 1.1, WebSocket version absent or 13, key present, Upgrade names websocket, Connection has the upgrade token; Err names a requirement that is violated')


def one(ctx, way, at):
    n = {'ok': 0, 'err': 0}
    seen = set()
    for u, k in shapes():
        for a in ways(ctx, way, u, k):
            for s in runsplit(a.st, lambda s: judge(ctx, a, s, n, seen)):
                pass
    if not n['ok'] or not n['err']:
        ctx.undecided('coverage', at, 'outcomes %s' % n)
    for kind in KINDS:
        if kind not in seen:
            ctx.undecided('coverage', at, 'no outcome with error ' + kind)
    ctx.samples.append('%s: %d accepted, %d refused outcome classes' % (at, n['ok'], n['err']))


def judge(ctx, a, s, n, seen):
    if a.request is None:
        if a.kind == 'ok':
            ctx.refute('needs-request', 'no-request', a.at, 'an upgrade although no request could be read', s)
        else:
            ctx.ok('needs-request')
        return []
    n[a.kind] += 1
    desc = 'Upgrade %s, Connection %s' % (a.u, a.k)
    if a.kind == 'ok':
        bad = [kd for kd in KINDS if violated(a, s, kd)]
        if bad:
            ctx.refute('accepts', 'accepts:' + bad[0], a.at, 'accepts a request that should be refused with %s (%s)' % (', '.join(bad), desc), s)
        else:
            ctx.ok('accepts')
        return []
    e = error_of(a)
    vi = a.ip.variant_of(s, e)
    kind = vname(a.ip, e, vi)
    seen.add(kind)
    if kind not in KINDS:
        ctx.refute('kind', 'kind:' + kind, a.at, 'a parsed request is refused with the error %s (%s)' % (kind, desc), s)
        return []
    if not violated(a, s, kind):
        bad = [kd for kd in KINDS if violated(a, s, kd)]
        if bad:
            ctx.refute('kind', 'wrong:%s' % kind, a.at, 'refused with %s, but the request violates only %s (%s)' % (kind, ', '.join(bad), desc), s)
        else:
            ctx.refute('refuses', 'refuses:' + kind, a.at, 'refuses a valid handshake with %s (%s)' % (kind, desc), s)
    else:
        ctx.ok('kind')
    return []


def error_of(a):
    v = a.ip.expand(a.value)
    for x in v[2]:
        if isinstance(x, tuple) and x[0] in ('en', 'et', 'sy') and a.ip.w.types[x[1]].get('path', '').endswith('HyperIntoWsError'):
            return x
    raise Unsupported('error value')
