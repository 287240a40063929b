"""Fragmented messages are reassembled in order; control frames may interleave"""
from ..check import *
from .. import receivers

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of the blocking and asynchronous message receivers, frame reader and message construction replaced by their (separately checked) '
               'contracts: every sequence of symbolic frames, interrupted at any point by a stream without data, is compared with the reference reassembly.')


def run(ctx):
    for k in receivers.ENDPOINTS:
        ctx.guard('receive/modelled', k, receivers.explore, ctx, ('order',), k, 3)
    for k in ('receiver', 'codec'):
        ctx.guard('receive/modelled', k, receivers.explore, ctx, ('order',), k, 2, True)
