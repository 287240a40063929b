"""A failed server handshake gives back what it had"""
from ..check import *
from ..terms import *
from ..models import runsplit
from ..upgrade import violated, vname, KINDS
from ..opaque import identical
from ..handshakes import *

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every way to start a server handshake (streams, parsed requests, listeners, TLS listeners; blocking and asynchronous) with unknown outcome of '
               'each accept, TLS handshake and request head. For every failing outcome the pieces returned are compared with what had been established on that path: '
               'the stream, the request, the unread buffer with its position, and the cause.')


def run(ctx):
    for name in sorted(ENTRIES):
        ctx.guard('modelled', ENTRIES[name][0], one, ctx, name)
    ctx.rules.append('Err carries the established stream, the parsed request, the buffer after the head was read, and the failure of the step that failed; before a stream exists: none of them')


def one(ctx, name):
    stages = {}
    for e in ends(ctx, name):
        key = e.stage or 'refused' if e.kind == 'err' else 'ok'
        stages[key] = stages.get(key, 0) + 1
        runsplit(e.st, lambda s: judge(ctx, e, s))
    how = ENTRIES[name][1]
    for want in {'server': ('listener-accept',), 'tls-server': ('listener-accept', 'tls-accept'), 'aserver': ('incoming',), 'tls-aserver': ('incoming', 'tls-accept')}.get(how, ()) + \
            (('ok', 'refused') if how in ('pair', 'hyper') else ('ok', 'refused', 'parse_request' if how in ('sync', 'server', 'tls-server') else 'next')):
        if want not in stages:
            ctx.undecided('coverage', e.where, 'no outcome of kind %s (%s)' % (want, stages))
    ctx.samples.append('%s: %s' % (ENTRIES[name][0], stages))


def judge(ctx, e, s):
    ip = e.ip
    if e.stage is not None and e.kind == 'ok':
        ctx.refute('fails', 'success-' + e.stage, e.where, 'success although the step %s failed' % e.stage, s)
        return []
    if e.kind == 'ok':
        return []
    stream, request, buffer, error = failed(e)
    for n, got, want in (('stream', stream, None if e.how == 'hyper' else e.stream), ('request', request, e.request)):
        if want is None:
            if got is not None:
                ctx.refute(n, n + '-invented', e.where, 'a %s is returned although there is none' % n, s)
            else:
                ctx.ok(n)
        elif got is None:
            ctx.refute(n, n + '-dropped', e.where, 'the %s is not given back (failed step: %s)' % (n, e.stage or 'validation'), s)
        else:
            identical(ctx, n, n, e.where, 'the %s given back' % n, s, ip, got, want, e.w)
    if e.how not in ('pair', 'hyper'):
        if e.buffer is None:
            if buffer is not None:
                ctx.refute('buffer', 'buffer-invented', e.where, 'a buffer is returned although there is none', s)
            else:
                ctx.ok('buffer')
        elif buffer is None:
            ctx.refute('buffer', 'buffer-dropped', e.where, 'the unread buffer is not given back (failed step: %s)' % (e.stage or 'validation'), s)
        else:
            same_buffer(ctx, e, s, 'buffer', 'buffer', 'the unread buffer given back', buffer, e.buffer)
    vi = ip.variant_of(s, error)
    kind = vname(ip, error, vi)
    if e.stage is None:
        if kind not in KINDS or not violated(attempt(e), s, kind):
            ctx.refute('error', 'error-kind', e.where, 'a parsed request is refused with %s, which it does not violate' % kind, s)
        else:
            ctx.ok('error')
    elif e.failure is not None:
        f = e.failure
        names_ = [f]
        if f[0] == 'sy':
            names_.append(f[2])
        if any(contains(error, x) for x in names_):
            ctx.ok('error')
        else:
            ctx.refute('error', 'error-cause', e.where, 'the error is %s, not the failure of the step %s' % (kind, e.stage), s)
        want = {'listener-accept': 'Io', 'incoming': 'Io', 'tls-accept': 'Io'}.get(e.stage)
        if want and kind != want:
            ctx.refute('error', 'error-variant', e.where, 'the failure of %s is reported as %s' % (e.stage, kind), s)
    else:
        if kind != 'Io':
            ctx.refute('error', 'error-variant', e.where, 'the end of the stream (or the failure to name the peer) is reported as %s' % kind, s)
        else:
            ctx.ok('error')
    return []
