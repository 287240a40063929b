"""Receive iterators report every receive result, one per step"""
from ..check import *
from ..terms import *
from ..frames import variant, option
from ..opaque import identical, table, xs
from ..pure import each

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of one step of every receive iterator with the receive (or accept) operation left opaque: every path performs exactly one such '
               'operation, on the right connection and reader, and yields its result as Some.')
C = 'src/client/sync.rs:Client::'
RD = 'src/receiver.rs:Reader::'
WR = 'websocket-base/src/ws/receiver.rs:'
# probe -> (place, operation, path of the receiver in the argument cells, path of the reader)
STEPS = {
    'next_message': (WR + 'MessageIterator::next', 'Receiver::recv_message'),
    'next_frame': (WR + 'DataFrameIterator::next', 'Receiver::recv_dataframe'),
    'reader_next_message': (WR + 'MessageIterator::next', 'Receiver::recv_message'),
    'reader_next_frame': (WR + 'DataFrameIterator::next', 'Receiver::recv_dataframe'),
    'receiver_next_message': (WR + 'MessageIterator::next', 'Receiver::recv_message'),
    'receiver_next_frame': (WR + 'DataFrameIterator::next', 'Receiver::recv_dataframe'),
}


def type_at(ip, s, p):
    """short name of the type a reference points to"""
    try:
        v = ip.read(s, p[1], p[2])
    except Exception:
        return None
    if isinstance(v, tuple) and v[0] in ('sy', 'st', 'en'):
        return ip.w.types[v[1]].get('path', '').split('::')[-1]
    return None


def step(ctx, name, at, ops, extra):
    for w, ip, args, vals, s, r in each(ctx, name, at, extra=lambda: extra, depth=0):
        es = [e for e in s.ev if e[0] == 'x']
        others = [e for e in s.ev if e[0] not in ('x',)]
        mine = [e for e in es if any(e[1].endswith(o) for o in ops)]
        if not mine:
            if es or others or r[0] == 'sy':
                ctx.undecided('one-receive', at, '%s: receives by other means' % name)
            else:
                ctx.refute('one-receive', 'none', at, 'a step ends without receiving', s)
            continue
        if len(mine) > 1:
            ctx.refute('one-receive', 'many', at, 'a step receives %d times: a result is dropped' % len(mine), s)
            continue
        ctx.ok('one-receive')
        if others:
            ctx.refute('one-receive', 'bypass', at, 'a step also touches the stream outside of the receive operation', s)
        e = mine[0]
        if not any(o.startswith('Receiver::') for o in ops):
            if e[2][0][:1] != ('at',) or e[2][0][1] != args[0][1] or e[2][0][2] != args[0][2]:
                ctx.refute('operands', 'server', at, 'the accept is not on the server iterated', s)
            else:
                ctx.ok('operands')
        else:
            # the receiver and the reader are those of the connection
            cells = {a[1] for a in args if a[0] == 'p'}
            if all(x[0] == 'at' and x[1] in cells for x in e[2]) and e[2][0] != e[2][1]:
                ctx.ok('operands')
            else:
                ctx.refute('operands', 'connection', at, 'the receive is not done with the receiver and reader of the connection', s)
        o = option(w, r)
        if o == 'unresolved':
            ctx.undecided('yields', at, 'result not resolved')
        elif o is None:
            ctx.refute('yields', 'end', at, 'the iteration ends: the result received is dropped', s)
        else:
            identical(ctx, 'yields', 'other', at, 'the item is not the result received', s, ip, o, e[3], w)


def run(ctx):
    extra = table(events=('Receiver::recv_message', 'Receiver::recv_dataframe'), force=True)
    for name, (at, op) in sorted(STEPS.items()):
        ctx.guard('modelled', at, step, ctx, name, at, (op,), extra)
    w = ctx.world('probe')
    acc = [f['path'] for f in w.fns.values() if 'WsServer' in f['path'] and f['path'].endswith('::accept') and 'sync' in f['path']]
    ex = {}
    from ..models import strip_generics
    from ..opaque import event
    for p in acc:
        ex[strip_generics(p)] = event(True)
    if not acc:
        ctx.undecided('server', 'src/server/sync.rs', 'accept not found')
    for name, ty in (('server_next', 'NoTlsAcceptor'), ('tls_server_next', 'TlsAcceptor')):
        at = 'src/server/sync.rs:WsServer<%s>::next' % ty
        ctx.guard('modelled', at, step, ctx, name, at, ('::accept',), ex)
    ctx.rules.append('next() = Some(receive()): exactly one receive (accept) event per path, its result is the item')
