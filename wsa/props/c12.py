"""Frame decoding consumes exactly one frame or nothing"""
from ..check import *
from ..frames import check_decode, check_readers

LEVEL = 'other'
EXPLANATION = ('Trace-partitioned abstract interpretation of the frame decoders over a buffer (stream) of symbolic content and length: '
               'for every class of header, length available and stream failure the outcome, the bytes consumed and the frame value '
               'are compared in normal form with the RFC 6455 framing.')


def run(ctx):
    check_decode(ctx, {'consume', 'panic'})
    check_readers(ctx, {'consume', 'panic'})
    ctx.rules.append('decode: incomplete frame => None and buffer unchanged; complete valid frame => that frame and buffer == what follows it')
    ctx.rules.append('blocking readers: frame <=> exactly header+payload bytes consumed; a failing or ending stream => error')
