"""Role dependent masking of received frames"""
from ..check import *
from ..frames import check_decode, check_readers
from .. import accepts
from ..client import connections
from . import c19

LEVEL = 'other'
EXPLANATION = ('Trace-partitioned abstract interpretation of every frame reader over symbolic bytes, role and limits: outcomes are split by '
               'the mask bit and the role and compared with the required result; delivered payloads are compared in normal form with '
               'payload[i] xor key[i mod 4].')


def run(ctx):
    check_decode(ctx, {'mask', 'panic'})
    check_readers(ctx, {'mask', 'panic'})
    accepts.accepts(ctx, ('in',))
    c19.split(ctx, ('in',))
    connections(ctx, ('in',))
    ctx.rules.append('accepted connections have the server role, connected ones the client role, halves keep the role')
    ctx.rules.append('delivered frame => mask bit == (role is server), payload == bytes xor header key when masked, == bytes otherwise')
