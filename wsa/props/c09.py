"""Only well-formed messages are delivered"""
from ..check import *
from ..spec import *
from ..terms import *
from .. import senders, witness
from ..senders import BASE, probe, describe
from .c01 import result

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of from_dataframes for both message types: for 0 to 3 frames with fully symbolic contents every outcome is compared with the '
               'reference assembly; for any number of frames the loop is generalised and every accepted outcome is compared with the concatenation of all payloads.')
DELIVERED = (1, 2, 8, 9, 10)


def elements(ip, w, v, n):
    """a vector argument with n symbolic elements"""
    x = ip.expand(v)
    e = x[1]
    els = [expand(ip, ip.sym(e, ('frame', i))) for i in range(n)]
    return ('vec', e, tuple(('1', y) for y in els)), els


def code(s, segs):
    """finite atom of UTF-8 validity of a byte sequence, as the analysis names it"""
    segs = seqnorm(s.nf(segs))
    if seqlen(segs) == 0:
        return 1
    return boolf(('utf8', segs))


def check(ctx, name, at, n):
    w = ctx.world('probe')
    fn = probe(ctx, name)
    ip = ctx.interp('probe')
    ip.unroll = (400, 100)      # the number of frames is fixed: every pass is analysed apart, what earlier passes established is kept
    args = ctx.args(ip, fn)
    args[0], els = elements(ip, w, args[0], n)
    st = State()
    ds = [describe(ip, st, w, e) for e in els]
    P = seqnorm(sum((d['payload'] for d in ds), ()))
    outs = ctx.run(ip, fn, args, st)
    cnt = {'ok': 0, 'err': 0}
    for k, st, v in outs:
        if k == 'unk':
            ctx.undecided('modelled', at, str(v))
            continue
        if k == 'panic':
            ctx.refute('no-panic', 'panic', at, 'panics (%s at %s)' % (v[1], v[2]), st)
            continue
        r, x = result(ctx, w, v)
        cnt[r] += 1
        judge(ctx, w, ip, at, st, r, x, ds, P)
    for q in cnt:
        if not cnt[q] and (n or q == 'err'):
            ctx.undecided('coverage', at, 'no outcome %s for %d frames' % (q, n))
    ctx.samples.append('%s of %d frames: outcome classes %s' % (at, n, cnt))


def judge(ctx, w, ip, at, st, r, x, ds, P):
    if not ds:
        if r == 'ok':
            ctx.refute('empty', 'ok-empty', at, 'a message is made from no frame at all', st)
        else:
            ctx.ok('empty')
        return
    conds = [b for d in ds for b in d['rsv']] + [fmap(d['op'], lambda y: int(y != 0)) for d in ds[1:]] + [fmap(ds[0]['op'], lambda y: int(y not in DELIVERED))]
    bads = [('rsv', i // 3) for i in range(3 * len(ds))] + [('cont', i + 1) for i in range(len(ds) - 1)] + [('op', 0)]
    n = seqlen(P)
    for s, l in some(ctx, st, conds):
        if l is not None:
            if r == 'ok':
                kind, i = bads[l]
                ctx.refute('refuses', 'accepts-' + kind, at, {'rsv': 'frame %d has a reserved bit set', 'cont': 'frame %d is not a continuation', 'op': 'the first frame (%d) has an opcode that is never delivered'}[kind] % i
                           + ' and a message is delivered', s)
            else:
                ctx.ok('refuses')
            continue
        for s2, (text, close) in ctx.cases(s, fmap(ds[0]['op'], lambda y: int(y == 1)), fmap(ds[0]['op'], lambda y: int(y == 8))):
            if text:
                cs = [(s3, u[0], P) for s3, u in ctx.cases(s2, code(s2, P))]
            elif close:
                cs = []
                for s3, (nz, two) in ctx.cases(s2, le(1, n), le(2, n)):
                    if not nz:
                        cs.append((s3, True, ()))
                    elif not two:
                        cs.append((s3, False, ()))
                    else:
                        try:
                            tails = [(s3, ip.cut(s3, P, 2))]
                        except Split as e:
                            tails = []
                            todo = [s3]
                            while todo:
                                q = todo.pop()
                                try:
                                    tails.append((q, ip.cut(q, P, 2)))
                                except Split as e:
                                    for alt in e.alts:
                                        t = q.copy()
                                        if all(t.assume(c) for c in alt) and not t.infeasible():
                                            todo.append(t)
                        for q, (h, tl) in tails:
                            for s4, u in ctx.cases(q, code(q, tl)):
                                cs.append((s4, u[0], P))
            else:
                cs = [(s2, True, P)]
            for s3, good, want in cs:
                if not good:
                    if r == 'ok':
                        ctx.refute('payload', 'accepts-text' if text else 'accepts-close', at,
                                   'a text payload that is not valid UTF-8 is delivered' if text else 'a close payload of one byte or with an invalid reason is delivered', s3)
                    else:
                        ctx.ok('payload')
                    continue
                if r == 'err':
                    ctx.refute('accepts', 'refuses', at, 'frames that form a message are refused', s3)
                    continue
                g = describe(ip, s3, w, expand(ip, x))
                ctx.equal('kind', 'kind', at, 'the message does not have the kind of its first frame', s3, g['op'], ds[0]['op'], w)
                ctx.equal('content', 'content', at, 'the content is not the concatenation of the payloads', s3, g['payload'], want, w)


def general(ctx, name, at):
    """any number of frames"""
    w = ctx.world('probe')
    fn = probe(ctx, name)
    ip = ctx.interp('probe')
    args = ctx.args(ip, fn)
    v = ip.expand(args[0])
    g = v[2][0]
    n = g[3]
    e = v[1]

    def el(i):
        return expand(ip, ip.elem(g, i, e))
    st = State()
    d0 = describe(ip, st, w, el(0))
    dj = describe(ip, st, w, el(add(atom(IDX), 1)))
    outs = ctx.run(ip, fn, args, st)
    ok = 0
    for k, st, v in outs:
        if k == 'unk':
            ctx.undecided('any/modelled', at, str(v))
        elif k == 'panic':
            ctx.refute('any/no-panic', 'panic', at, 'panics (%s at %s)' % (v[1], v[2]), st)
        elif result(ctx, w, v)[0] == 'ok':
            ok += 1
            x = expand(ip, result(ctx, w, v)[1])
            for s, (one, two) in ctx.cases(st, le(1, n), le(2, n)):
                if not one:
                    ctx.refute('any/empty', 'ok-empty', at, 'a message is made from no frame at all', s)
                    continue
                P = d0['payload']
                if two:
                    P += (('s', ('cat', dj['payload'], sub(n, 1)), 0, lenof(('cat', dj['payload'], sub(n, 1)))),)
                    bits = list(dj['rsv']) + [fmap(dj['op'], lambda y: int(y != 0))]
                    if not any(universal(ip, s, kl, ts, bits, n) for _, kl, ts in ip.loop_backs):
                        ctx.undecided('any/refuses', at, 'no loop checks every frame after the first')
                    else:
                        ctx.ok('any/refuses', len(bits))
                g = describe(ip, s, w, x)
                ctx.equal('any/kind', 'kind', at, 'the message does not have the kind of its first frame', s, g['op'], d0['op'], w)
                got = seqnorm(s.nf(g['payload']))
                if two and not any(is_cat(p) for p in got) or any(witness.over(p) for p in got):
                    # the passes do not all do the same thing: the collected content is not a concatenation the analysis can name
                    # (up to four frames are compared exactly)
                    if got == seqnorm(s.nf(P)):
                        ctx.ok('any/content')
                    else:
                        ctx.undecided('any/content', at, 'the content is not known as a concatenation over all frames')
                    continue
                ctx.equal('any/content', 'content', at, 'the content is not the concatenation of the payloads', s, got, seqnorm(s.nf(P)), w)
    if not ok:
        ctx.undecided('any/coverage', at, 'no message is ever delivered')
    ctx.samples.append('%s of any number of frames: %d accepting outcomes, loops %s' % (at, ok, sorted(set(str(k) for k, _, _ in ip.loop_backs))[:4]))


def is_cat(g):
    return g[0] == 's' and isinstance(g[1], tuple) and g[1] and g[1][0] == 'cat'


def universal(ip, s, kl, ts, bits, n):
    """every pass of the loop proves that the conditions are false for one element, and the passes cover elements 1 to n-1"""
    end = s.nf(kl)
    for c in (0, 1, 2):
        # elements c .. c+kl-1 are covered, and element 1 .. c-1 by the passes analysed apart
        if c > 1 or s.prove(eqc(add(end, c), n)) is not True:
            continue
        m = {IDX: add(kl, c - 1)}
        if all(t.prove(c_false(t.nf(subst(b, m)))) is True for t in ts for b in bits):
            return True
    return False


def c_false(b):
    return eqc(b, 0) if not (isinstance(b, tuple) and b and b[0] == 'C') else c_not(b)


def some(ctx, st, conds):
    """(state, index of the first true condition or None)"""
    todo = [(st, 0)]
    while todo:
        s, i = todo.pop()
        if i == len(conds):
            yield s, None
            continue
        for s2, (t,) in ctx.cases(s, conds[i]):
            if t:
                yield s2, i
            else:
                todo.append((s2, i + 1))


def run(ctx):
    M = BASE + 'message.rs:'
    for name, at in (('assemble_frames', M + 'OwnedMessage::from_dataframes'), ('assemble_parts', M + 'OwnedMessage::from_dataframes'), ('assemble_message', M + 'Message::from_dataframes')):
        for n in (0, 1, 2, 3, 4):
            ctx.guard('modelled', at, check, ctx, name, at, n)
        ctx.guard('any/modelled', at, general, ctx, name, at)
    ctx.rules.append('from_dataframes(fs) is Ok iff |fs| >= 1, no reserved bit, all but the first are continuations, the first is text/binary/close/ping/pong, '
                     'text and close reason are UTF-8 and a close payload is not one byte; and then kind and content are those of the frames')
