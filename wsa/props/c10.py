"""Receive limits are enforced before data is buffered"""
from ..check import *
from .. import receivers
from ..frames import check_decode, check_readers

LEVEL = 'other'
EXPLANATION = ('Trace-partitioned abstract interpretation of the frame and message receivers with symbolic limits: outcomes are split by '
               'declared length against the configured (clamped) limit; allocation requests are events of the abstract trace and bounded by linear forms.')


def run(ctx):
    check_decode(ctx, {'limit'})
    check_readers(ctx, {'limit'})
    ctx.rules.append('declared payload > frame limit => error after the header alone, no allocation beyond the limit; within the limit => no size error')
    for k in ('receiver', 'codec', 'client'):
        ctx.guard('receive/modelled', k, receivers.explore, ctx, ('limit',), k, 3)
    for k in ('receiver', 'codec'):
        ctx.guard('receive/modelled', k, receivers.explore, ctx, ('limit',), k, 2, True)
    ctx.rules.append('incomplete message: payload collected > message limit (clamped) => error; payload + 64 per fragment < limit => no error; number of fragments bounded')
