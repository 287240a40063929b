"""Message constructors, conversions and predicates preserve kind and content"""
from ..check import *
from ..spec import *
from ..terms import *
from ..senders import BASE, describe, named, deref
from ..frames import opcode_number, option, variant
from ..pure import each
from .c01 import result

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every constructor, conversion and predicate of the message and frame types for every shape of value with symbolic '
               'payloads; the opcode, final bit, reserved bits, close status and payload of each result are compared in normal form with those given.')
M = BASE + 'message.rs:'


def seq(ip, s, v):
    """bytes of a string, vector, slice or Cow value"""
    v = ip.expand(v)
    if v[0] == 'en':
        return seq(ip, s, v[3][0])
    if v[0] == 'p':
        return ip.seq_of(s, v)[0]
    if v[0] == 'st':
        return seq(ip, s, v[2][0])
    return v[2]


def content(ctx, w, ip, at, what, s, r, op, payload):
    ds = describe(ip, s, w, r)
    ctx.equal(what + '/kind', 'kind', at, 'the kind of the message is not the one asked for', s, ds['op'], op, w)
    ctx.equal(what + '/payload', 'payload', at, 'the close status and payload of the message are not those given', s, ds['payload'], seqnorm(payload), w)


def status_of(w, s, r):
    """(0|1, code) of a message value"""
    t = w.types[r[1]]['path'].split('::')[-1]
    if t == 'Message':
        o = named(w, r)['cd_status_code']
    elif variant(w, r) == 'Close':
        o = r[3][0]
    else:
        return 0, None
    x = option(w, o)
    if x == 'unresolved':
        return None, None
    return (0, None) if x is None else (1, x)


def has_status(ctx, w, ip, at, what, s, r, code):
    k, c = status_of(w, s, r)
    if k is None:
        ctx.undecided(what + '/status', at, 'close status not resolved')
    elif k != (code is not None):
        ctx.refute(what + '/status', 'status', at, 'the message has a close status' if k else 'the close status is lost', s)
    elif k:
        x = ip.expand(c)
        x = named(w, x)['status_code'] if isinstance(x, tuple) and x[0] == 'st' else c
        ctx.equal(what + '/status', 'status', at, 'the close status is not the one given', s, x, code, w)
    else:
        ctx.ok(what + '/status')


def constructors(ctx):
    for name, at, op in (('text_string', 'text', 1), ('text_str', 'text', 1), ('binary_vec', 'binary', 2), ('binary_slice', 'binary', 2), ('binary_cow', 'binary', 2),
                         ('ping_vec', 'ping', 9), ('ping_slice', 'ping', 9), ('pong_vec', 'pong', 10), ('pong_slice', 'pong', 10), ('close_none', 'close', 8),
                         ('close_string', 'close_because', 8), ('close_str', 'close_because', 8)):
        at = M + 'Message::' + at
        for w, ip, args, vals, s, r in each(ctx, name, at):
            code = vals[0] if op == 8 and vals else None
            body = seq(ip, s, vals[-1]) if vals else ()
            ctx.equal('new/kind', 'kind', at, 'the kind of the message is not the one of its constructor', s, describe(ip, s, w, r)['op'], op, w)
            ctx.equal('new/payload', 'payload', at, 'the payload is not the one given', s, seqnorm(deref(ip, s, w, named(w, r)['payload'])), seqnorm(body), w)
            has_status(ctx, w, ip, at, 'new', s, r, code)
    for name, at, op in (('owned_of_string', 'OwnedMessage::from<String>', 1), ('owned_of_vec', 'OwnedMessage::from<Vec>', 2)):
        at = M + at
        for w, ip, args, vals, s, r in each(ctx, name, at):
            content(ctx, w, ip, at, 'from', s, r, op, seq(ip, s, vals[0]))


def conversions(ctx):
    for name, at in (('owned_of_message', M + 'OwnedMessage::from<Message>'), ('message_of_owned', M + 'Message::from<OwnedMessage>')):
        for w, ip, args, vals, s, r in each(ctx, name, at):
            m = vals[0]
            d = describe(ip, s, w, m)
            if name == 'owned_of_message':
                f = named(w, m)
                text = seqnorm(deref(ip, s, w, f['payload']))
                k, code = status_of(w, s, m)
                valid = boolf(('utf8', text)) if seqlen(text) != 0 else 1
                n = seqlen(text)
                for s1, (close, txt, ok, empty) in ctx.cases(s, fmap(d['op'], lambda x: int(x == 8)), fmap(d['op'], lambda x: int(x == 1)), valid, le(n, 0)):
                    # a borrowed message may hold what no owned message can: a status on another kind, a reason without a status, text that is not UTF-8
                    if k and not close or close and not k and not empty or (close or txt) and not ok:
                        continue
                    content(ctx, w, ip, at, 'convert', s1, r, d['op'], d['payload'])
                    if close:
                        has_status(ctx, w, ip, at, 'convert', s1, r, code)
            else:
                content(ctx, w, ip, at, 'convert', s, r, d['op'], d['payload'])
                k, code = status_of(w, s, m)
                if k:
                    code = named(w, ip.expand(code))['status_code']
                has_status(ctx, w, ip, at, 'convert', s, r, code)


def into_pong(ctx):
    at = M + 'Message::into_pong'
    for w, ip, args, vals, s, r in each(ctx, 'into_pong', at):
        k, _ = result(ctx, w, r)
        d0 = describe(ip, s, w, vals[0])
        after = ip.read(s, args[0][1], args[0][2])
        d1 = describe(ip, s, w, after)
        for s1, (ping,) in ctx.cases(s, fmap(d0['op'], lambda x: int(x == 9))):
            ctx.holds('pong/result', 'result', at, 'success is reported for something else than a ping, or failure for a ping', s1, mk_bool(ping == (k == 'ok')))
            ctx.equal('pong/kind', 'kind', at, 'the kind afterwards is wrong', s1, d1['op'], 10 if ping else d0['op'], w)
            ctx.equal('pong/payload', 'payload', at, 'the content of the message changes', s1, d1['payload'], d0['payload'], w)


def mk_bool(b):
    return 1 if b else 0


def predicates(ctx):
    for name, ops in (('is_close', (8,)), ('is_control', (8, 9, 10)), ('is_data', (1, 2)), ('is_ping', (9,)), ('is_pong', (10,))):
        at = M + 'OwnedMessage::' + name
        for w, ip, args, vals, s, r in each(ctx, name, at):
            d = describe(ip, s, w, vals[0])
            ctx.equal('is', name, at, 'the predicate is wrong for a kind of message', s, r, fmap(d['op'], lambda x: int(x in ops)), w)
    for t, at in (('frame', BASE + 'dataframe.rs:DataFrame::'), ('message', M + 'Message::'), ('owned', M + 'OwnedMessage::')):
        for w, ip, args, vals, s, r in each(ctx, 'opcode_' + t, at + 'opcode'):
            ctx.equal('facts', 'opcode', at + 'opcode', 'the reported opcode is not that of the kind', s, r, describe(ip, s, w, vals[0])['op'], w)
        for w, ip, args, vals, s, r in each(ctx, 'last_' + t, at + 'is_last'):
            ctx.equal('facts', 'is_last', at + 'is_last', 'the reported final bit is wrong', s, r, describe(ip, s, w, vals[0])['fin'], w)
        for w, ip, args, vals, s, r in each(ctx, 'reserved_' + t, at + 'reserved'):
            want = describe(ip, s, w, vals[0])['rsv']
            for i in range(3):
                ctx.equal('facts', 'reserved', at + 'reserved', 'the reported reserved bits are wrong', s, try_index(ip.expand(r)[2], i), want[i], w)
    at = BASE + 'dataframe.rs:DataFrame::new'
    for w, ip, args, vals, s, r in each(ctx, 'frame_new', at):
        d = describe(ip, s, w, r)
        ctx.equal('frame', 'fin', at, 'the final bit is not the one given', s, d['fin'], vals[0], w)
        ctx.equal('frame', 'opcode', at, 'the opcode is not the one given', s, d['op'], opcode_number(w, vals[1] if vals[1][0] != 'sy' else ip.expand(vals[1])), w)
        ctx.equal('frame', 'payload', at, 'the payload is not the one given', s, d['payload'], seqnorm(seq(ip, s, vals[2])), w)
        for i in range(3):
            ctx.equal('frame', 'reserved', at, 'a reserved bit is set', s, d['rsv'][i], 0, w)
    at = BASE + 'dataframe.rs:Opcode::new'
    for w, ip, args, vals, s, r in each(ctx, 'opcode_new', at):
        n = vals[0]
        for s1, (valid,) in ctx.cases(s, le(n, 15)):
            x = option(w, r)
            if x == 'unresolved':
                ctx.undecided('opcode', at, 'result not resolved')
            elif (x is not None) != bool(valid):
                ctx.refute('opcode', 'range', at, 'a number above 15 has an opcode' if x is not None else 'an opcode number is rejected', s1)
            elif valid:
                ctx.equal('opcode', 'number', at, 'the opcode is not the one of that number', s1, opcode_number(w, x), n, w)
            else:
                ctx.ok('opcode')
    at = M + 'CloseData::'
    for w, ip, args, vals, s, r in each(ctx, 'close_data', at + 'new'):
        f = named(w, r)
        ctx.equal('close', 'status', at + 'new', 'the status is not the one given', s, f['status_code'], vals[0], w)
        ctx.equal('close', 'reason', at + 'new', 'the reason is not the one given', s, seqnorm(seq(ip, s, f['reason'])), seqnorm(seq(ip, s, vals[1])), w)
    for w, ip, args, vals, s, r in each(ctx, 'close_data_bytes', at + 'into_bytes'):
        k, x = result(ctx, w, r)
        if k != 'ok':
            ctx.refute('close', 'bytes', at + 'into_bytes', 'the conversion fails', s)
            continue
        f = named(w, vals[0])
        from .c02 import be_segs
        ctx.equal('close', 'bytes', at + 'into_bytes', 'the bytes are not the status followed by the reason', s, seqnorm(seq(ip, s, x)),
                  seqnorm(tuple(be_segs(ip, s, f['status_code'], 2)) + seq(ip, s, f['reason'])), w)


def run(ctx):
    ctx.guard('constructors', M, constructors, ctx)
    ctx.guard('conversions', M, conversions, ctx)
    ctx.guard('into_pong', M + 'Message::into_pong', into_pong, ctx)
    ctx.guard('predicates', M, predicates, ctx)
    ctx.rules += ['constructor(x): kind of the constructor, payload x, status exactly when given',
                  'convert(m): same kind, status and payload (for messages the target type can represent)',
                  'into_pong: Ok iff ping; opcode becomes 10, everything else unchanged',
                  'is_X(m) iff opcode of m is in the RFC set of X; opcode/is_last/reserved report the stored facts']
