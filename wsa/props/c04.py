"""Clients mask every frame with a fresh random key; servers never mask"""
from ..check import *
from .. import senders
from .. import accepts
from ..client import connections
from . import c19

LEVEL = 'other'
EXPLANATION = ('Trace-partitioned abstract interpretation of every way to send with a symbolic role: on every path the mask bit is that of the role, '
               'exactly one random key is drawn per masked frame, it is the key in the header, and the payload is the message xored with that key.')


def run(ctx):
    senders.direct(ctx, ('mask',))
    senders.connection(ctx, ('mask',))
    senders.codecs(ctx, ('mask',))
    accepts.accepts(ctx, ('out',))
    c19.split(ctx, ('out',))
    connections(ctx, ('out',))
    ctx.rules.append('accepted connections have the server role, connected ones the client role, halves keep the role')
    ctx.rules.append('masked iff the role masks; header key == the value drawn by gen_mask in the same send; payload == message xor that key')
