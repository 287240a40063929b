"""Configured limits reach the endpoint they were configured for, unswapped"""
from ..check import *
from .. import accepts
from ..client import connections
from . import c10, c19

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every accept, connect and split with unknown limits: the connection produced is compared, component by component, with what the '
               'public constructor makes of exactly these limits (the parts of the constructed value that depend on each argument are found by changing that argument); '
               'what the constructors enforce is decided by the receive analysis of C10, which is run here as well.')


def run(ctx):
    accepts.accepts(ctx, ('limit',))
    c19.split(ctx, ('limit',))
    connections(ctx, ('limit',))
    c10.run(ctx)
    ctx.rules.append('connection of accept*/connect* == constructor(.., frame limit, message limit) with the configured values or 100 MiB / 200 MiB')
