"""A slow handshake does not hold up other connections on the asynchronous server"""
from ..check import *
from ..terms import *
from ..handshakes import *

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the stream the asynchronous server returns: one connection is driven through its combinators, recording for every operation whether the stream '
               'waits for it before it takes the next connection (inside and_then) or runs it concurrently (inside buffer_unordered) and with what limit. Every operation that '
               'waits for the peer must be of the second kind, unordered and without a limit.')
WAITING = ('next', 'tls-accept', 'send')
NOLIMIT = (1 << 64) - 1


def run(ctx):
    for name in ('async_incoming', 'async_tls_incoming'):
        ctx.guard('modelled', ENTRIES[name][0], one, ctx, name)
    ctx.rules.append('receiving the request, the TLS handshake and any sending happen only inside an unordered buffer of usize::MAX futures')


def one(ctx, name):
    where = ENTRIES[name][0]
    n = 0
    for e in ends(ctx, name):
        phase = None
        for x in e.xs:
            if x[1] == 'phase':
                phase = x[2]
                continue
            if x[1] not in WAITING:
                continue
            n += 1
            if phase is None or phase == 'serial':
                ctx.refute('concurrent', 'serial-' + x[1], where, 'the stream waits for %s of one connection before it takes the next one' % (
                    {'next': 'the request', 'tls-accept': 'the TLS handshake', 'send': 'a write'}[x[1]]), e.st)
                continue
            _, limit, ordered = phase
            if ordered:
                ctx.refute('unordered', 'ordered', where, 'results are held back until those of earlier connections are there', e.st)
            else:
                ctx.ok('unordered')
            ctx.equal('unlimited', 'limited', where, 'the number of concurrent handshakes is limited', e.st, limit, NOLIMIT, e.w)
    if not n:
        ctx.undecided('coverage', where, 'no handshake')
    ctx.samples.append('%s: %d waiting operations' % (where, n))
