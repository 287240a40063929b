"""Masking: XOR with the key repeated, whatever the chunking"""
from ..check import *
from ..spec import *
from ..terms import *
from .c01 import result, fields

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation with loop generalisation: the masking loops are summarised by an inductive element law '
               '(output[i] as a function of i), compared in normal form with input[i] xor key[(start+i) mod 4] for symbolic '
               'key, start, input and length; the state after a write is compared for every number of bytes the sink accepts.')


def run(ctx):
    w = ctx.world('base')
    # one shot masking
    fn = ctx.fn('base', 'mask_data')
    ip = ctx.interp('base')
    args = ctx.args(ip, fn)
    where = 'websocket-base/src/ws/util/mask.rs:mask_data'
    key = args[0][2]
    want = seqnorm(masked(key, 0, (('s', ('arg', 1), 0, lenof(('arg', 1))),)))
    n = 0
    for k, st, v in ctx.run(ip, fn, args):
        if k == 'unk':
            ctx.undecided('one-shot', where, str(v))
        elif k == 'panic':
            ctx.refute('one-shot/no-panic', 'panic', where, 'panics (%s at %s)' % (v[1], v[2]), st)
        else:
            n += 1
            ctx.equal('one-shot/bytes', 'bytes', where, 'output differs from input[i] xor key[i mod 4]', st, v[2], want, w)
    # streaming masker
    new = ctx.fn('base', "Masker::<'w>::new")
    ip = ctx.interp('base')
    args = ctx.args(ip, new)
    where = 'websocket-base/src/ws/util/mask.rs:Masker::new'
    for k, st, v in ctx.run(ip, new, args):
        if k != 'ret':
            ctx.undecided('new', where, str(v))
            continue
        f = fields(ctx, w, v)
        ctx.equal('new/key', 'key', where, 'the masker does not keep the key', st, f['key'], args[0], w)
        ctx.equal('new/start', 'start', where, 'the masker does not start at key byte 0', st, f['pos'], 0, w)
        ctx.equal('new/sink', 'sink', where, 'the masker does not write to the given sink', st, f['end'][1:3], args[1][1:3], w) \
            if f['end'][0] != 'p' else (ctx.ok('new/sink') if f['end'][1] == args[1][1] else ctx.refute('new/sink', 'sink', where, 'other sink', st))
    wr = ctx.method('base', 'write', 'Masker', 'Write')
    if len(wr) != 1:
        raise Anchor('Masker::write')
    fn = wr[0]
    ip = ctx.interp('base')
    args = ctx.args(ip, fn)
    where = 'websocket-base/src/ws/util/mask.rs:Masker::write'
    st = State()
    m = ip.read(st, args[0][1], ())
    f = {nm: ip.sym_field(m, i) for i, (nm, _) in enumerate(w.types[m[1]]['variants'][0][2])}
    # class invariant, established by new and preserved by write (checked below): pos < 4
    pos = ident(('f', 'pos', 4))
    names = [nm for nm, _ in w.types[m[1]]['variants'][0][2]]
    ip.write(st, args[0][1], args[0][2] + (names.index('pos'),), pos)
    data = (('s', ('arg', 1), 0, lenof(('arg', 1))),)
    sid = stream_name(f['end'])
    key = f['key'][2]
    want = masked(key, pos, data)
    n = nw = nf = 0
    for k, s, v in ctx.run(ip, fn, args, st):
        if k == 'unk':
            ctx.undecided('write', where, str(v))
            continue
        if k == 'panic':
            ctx.refute('write/no-panic', 'panic', where, 'panics (%s at %s)' % (v[1], v[2]), s)
            continue
        r, x = result(ctx, w, v)
        evs = [e for e in s.ev if e[0] in ('write', 'write!', 'wr', 'wr!') and e[1] == sid]
        p2 = fields(ctx, w, final(ip, s, args[0]))['pos']
        if len(evs) != 1:
            if not evs and r == 'ok':
                # nothing handed to the sink: fine only when nothing was claimed as written
                ctx.equal('write/accepted', 'claims', where, 'reports bytes as written that were never handed to the sink', s, x, 0, w)
            elif not evs:
                ctx.ok('write/accepted')
            else:
                ctx.undecided('write/one-write', where, '%d writes to the sink' % len(evs))
            continue
        e = evs[0]
        ctx.equal('write/bytes', 'bytes', where, 'bytes handed to the sink differ from data[i] xor key[(pos+i) mod 4]', s, e[2], seqnorm(want), w)
        acc = e[3] if e[0] == 'write' else lenof(('arg', 1)) if e[0] == 'wr' else 0
        if e[0] in ('write', 'wr'):
            nw += 1
            if r != 'ok':
                ctx.refute('write/accepted', 'err-after-write', where, 'an error is reported although the sink accepted bytes', s)
                continue
            ctx.equal('write/accepted', 'count', where, 'the number of bytes reported differs from what the sink accepted', s, x, acc, w)
            ctx.equal('write/position', 'position', where, 'the key position is not advanced by exactly the bytes the sink accepted', s,
                      p2, mk_mod(add(pos, acc), 4), w)
        else:
            nf += 1
            if r == 'ok' and e[0] == 'write!':
                ctx.refute('write/accepted', 'ok-after-failure', where, 'success is reported although the sink failed', s)
                continue
            if e[0] == 'write!':
                ctx.equal('write/position', 'position-after-failure', where, 'the key position advances although the sink failed', s, p2, pos, w)
    fl = ctx.method('base', 'flush', 'Masker', 'Write')
    for fn in fl:
        ip = ctx.interp('base')
        args = ctx.args(ip, fn)
        where = 'websocket-base/src/ws/util/mask.rs:Masker::flush'
        m = ip.read(State(), args[0][1], ())
        for k, s, v in ctx.run(ip, fn, args):
            if k != 'ret':
                ctx.undecided('flush', where, str(v))
                continue
            evs = [e for e in s.ev if e[1] == sid]
            r, x = result(ctx, w, v)
            if len(evs) == 1 and evs[0][0] == ('flush' if r == 'ok' else 'flush!'):
                ctx.ok('flush/forwarded')
            else:
                ctx.refute('flush/forwarded', 'flush', where, 'flush does not flush the sink and report its result', s)
            ctx.equal('flush/position', 'position', where, 'flush changes the key position', s, fields(ctx, w, final(ip, s, args[0]))['pos'],
                      ip.sym_field(m, [i for i, (nm, _) in enumerate(w.types[m[1]]['variants'][0][2]) if nm == 'pos'][0]), w)
    ctx.rules.append('mask_data(key, data)[i] == data[i] xor key[i mod 4] and has the same length')
    ctx.rules.append('Masker::write hands exactly data[i] xor key[(pos+i) mod 4] to the sink and advances pos by the accepted count modulo 4')
    if nw < 1 or nf < 1 or not n + 1:
        ctx.undecided('coverage', where, 'no write outcome')
