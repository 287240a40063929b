"""Declared payload and frame sizes equal the bytes produced"""
from ..check import *
from ..spec import *
from ..terms import *
from .. import senders
from ..senders import BASE, probe, describe, instances, classes
from .c01 import result
from .c02 import whole_writes

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of size, frame_size, message_size, write_payload, take_payload and of every send, for every shape of frame and message '
               'with symbolic payloads: each returned number, byte sequence and stream effect is compared in normal form with one reference payload.')


def each(ctx, name, where, fi):
    w = ctx.world('probe')
    fn = probe(ctx, name)
    ip = ctx.interp('probe')
    args0 = ctx.args(ip, fn)
    for v in instances(ip, State(), w, args0[fi]):
        ip = ctx.interp('probe')
        st = State()
        args = list(args0)
        if args[fi][0] == 'p':
            st.mem[args[fi][1]] = v
        else:
            args[fi] = v
        d = describe(ip, st, w, v)
        n = 0
        for k, s, r in ctx.run(ip, fn, args, st):
            if k == 'unk':
                ctx.undecided('size/modelled', where, str(r))
            elif k == 'panic':
                ctx.refute('size/no-panic', 'panic', where, 'panics (%s at %s)' % (r[1], r[2]), s)
            else:
                n += 1
                yield w, ip, args, s, d, r
        if not n:
            ctx.undecided('size/coverage', where, 'no outcome')


def header_len(s, n, masked_):
    if isinstance(n, int):
        k = 2 if n <= 125 else 4 if n <= 65535 else 10
    else:
        k = 2 if s.prove(le(n, 125)) is True else 4 if s.prove(le(n, 65535)) is True else 10
    return k + (4 if masked_ else 0)


def run(ctx):
    M = BASE + 'message.rs:'
    W = BASE + 'ws/dataframe.rs:DataFrame::'
    for t, at in (('frame', BASE + 'dataframe.rs:DataFrame::'), ('message', M + 'Message::'), ('owned', M + 'OwnedMessage::')):
        for w, ip, args, s, d, r in each(ctx, 'size_' + t, at + 'size', 0):
            ctx.equal('size', 'size', at + 'size', 'the reported payload size is not the length of the payload', s, r, seqlen(d['payload']), w)
        for w, ip, args, s, d, r in each(ctx, 'take_' + t, at + 'take_payload', 0):
            ctx.equal('take', 'take', at + 'take_payload', 'the payload taken is not the payload of the frame', s, seqnorm(ip.expand(r)[2] if r[0] != 'vec' else r[2]), d['payload'], w)
        for w, ip, args, s, d, r in each(ctx, 'payload_' + t, at + 'write_payload', 0):
            k, x = result(ctx, w, r)
            for s in whole_writes(ctx, ip, s):
                if any(e[0] == 'w?' for e in s.ev):
                    ctx.undecided('write', at + 'write_payload', 'plain writes whose bytes are not resolved')
                    continue
                bad = any(e[0] == 'wr!' for e in s.ev)
                if any(e[0] == 'write' for e in s.ev):
                    ctx.refute('write', 'partial', at + 'write_payload', 'the payload is given to a write that may accept only part of it', s)
                    continue
                if (k == 'ok') == bad:
                    ctx.refute('write', 'outcome', at + 'write_payload', 'the result does not report whether the writes succeeded', s)
                    continue
                if k == 'ok':
                    got = sum((e[2] for e in s.ev if e[0] == 'wr'), ())
                    ctx.equal('write', 'written', at + 'write_payload', 'the bytes written are not the payload', s, seqnorm(got), d['payload'], w)
                else:
                    ctx.ok('write')
    for name, at in (('frame_size_frame', W + 'frame_size'), ('frame_size_message', W + 'frame_size'), ('frame_size_owned', W + 'frame_size'), ('frame_size_part', W + 'frame_size'),
                     ('message_size_message', M + 'Message::message_size'), ('message_size_owned', M + 'OwnedMessage::message_size')):
        for w, ip, args, s, d, r in each(ctx, name, at, 0):
            for s1, refuse, m in classes(ctx, s, d, args[1]):
                if refuse:
                    continue
                n = seqlen(d['payload'])
                ctx.equal('frame-size', 'frame-size', at, 'the predicted size is not the size of the encoded frame', s1, r, add(n, header_len(s1, n, m)), w)
    senders.direct(ctx, ('size',))
    senders.codecs(ctx, ('size',))
    ctx.rules += ['size(f) == |take_payload(f)| == |bytes written by write_payload(f)|, and these bytes are the payload of f',
                  'frame_size(f, masked) == message_size == RFC 6455 header length of |payload| + 4 if masked + |payload|',
                  'every send emits exactly that many bytes; the codecs never run out of the space they reserved']
