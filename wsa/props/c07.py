"""A frame reaches the stream whole and only if it could be encoded"""
from ..check import *
from .. import senders

LEVEL = 'other'
EXPLANATION = ('Trace-partitioned abstract interpretation of every way to send (write_to/serialize on all four frame kinds including a user supplied '
               'frame whose payload is refused half way, the blocking client and writer, both codecs) on a stream whose write may fail: the log of '
               'stream effects of every path is compared with the specification (one complete write of the encoded frame, or none and an error).')


def run(ctx):
    senders.direct(ctx, ('whole',))
    senders.connection(ctx, ('whole',))
    senders.codecs(ctx, ('whole',))
    ctx.rules.append('on every path of a send: encodable => exactly one write_all of the RFC 6455 encoding and Ok iff it succeeded; not encodable => no write and Err')
