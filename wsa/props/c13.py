"""No byte sequence from the peer makes the library panic"""
from ..check import *
from ..terms import *
from ..frames import U32, check_decode, check_readers
from .. import receivers
from . import c09

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of everything that reads frame bytes, over symbolic streams, buffers, roles, limits and receiver states: every abstract outcome is '
               'a return, or a panic (absent value, index, slice, arithmetic overflow, capacity overflow, unreachable) whose path condition is checked for a concrete member; '
               'allocation requests are events bounded by linear forms.')


class OnlyPanics:
    """keeps the panic and allocation obligations, counts the other outcomes as panic free"""

    def __init__(self, ctx):
        object.__setattr__(self, 'c', ctx)

    def __getattr__(self, n):
        return getattr(self.c, n)

    def keep(self, name):
        return name.endswith('no-panic') or 'allocation' in name or name.endswith('modelled')

    def ok(self, name, n=1):
        self.c.ok(name if self.keep(name) else 'returns', n)

    def refute(self, name, *a, **k):
        return self.c.refute(name, *a, **k) if self.keep(name) else None

    def undecided(self, name, *a, **k):
        return self.c.undecided(name, *a, **k) if self.keep(name) else None

    def fail(self, name, *a, **k):
        return self.c.fail(name, *a, **k) if self.keep(name) else None

    def holds(self, name, *a, **k):
        return self.c.holds(name, *a, **k) if self.keep(name) else None

    def equal(self, name, *a, **k):
        self.c.ok('returns')
        return True

    def guard(self, name, where, fn, *a, **k):
        return self.c.guard(name, where, fn, *a, **k)


def roots(ctx):
    """every public reader of frame bytes"""
    for name in ('decode_frame', 'recv_one', 'client_recv_one', 'reader_recv_one', 'assemble_frames', 'assemble_parts', 'assemble_message'):
        yield 'probe', ctx.fn('probe', 'probe::' + name), name
    for name in ('read_dataframe', 'read_dataframe_with_limit'):
        yield 'base', ctx.one('base', name, 'DataFrame'), name
    yield 'base', ctx.fn('base', 'read_header'), 'read_header'


def one(ctx, crate, fn, name):
    ip = ctx.interp(crate)
    n = {'ret': 0, 'panic': 0, 'unk': 0}
    args = ctx.args(ip, fn)
    for k, st, v in ctx.run(ip, fn, args):
        # the connections clamp the limit to 32 bits before it gets here
        if name == 'read_dataframe_with_limit' and not st.assume(('le', sub(args[2], U32))):
            continue
        n[k] += 1
        if k == 'unk':
            ctx.undecided('modelled', name, str(v))
        elif k == 'panic':
            ctx.refute('no-panic', 'panic', '%s:%s' % (v[2].split(':')[0] if isinstance(v[2], str) else name, v[0] if isinstance(v[0], str) else name),
                       'panics (%s at %s) when reached from %s' % (v[1], v[2], name), st)
        else:
            ctx.ok('no-panic')
    ctx.samples.append('%s: %s' % (fn['path'], n))


def run(ctx):
    for crate, fn, name in roots(ctx):
        ctx.guard('modelled', name, one, ctx, crate, fn, name)
    o = OnlyPanics(ctx)
    check_decode(o, {'limit', 'panic'})
    check_readers(o, {'limit', 'panic'})
    for k in ('receiver-message', 'codec', 'client'):
        ctx.guard('modelled', k, receivers.explore, o, ('panic',), k, 3)
    for k in ('receiver', 'codec'):
        ctx.guard('modelled', k, receivers.explore, o, ('panic',), k, 2, True)
    ctx.rules.append('no feasible abstract outcome of a reader of peer bytes is a panic; allocation requests are bounded by a constant, the frame limit or bytes received')
