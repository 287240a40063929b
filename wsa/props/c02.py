"""Frame header encoding"""
from ..check import *
from ..spec import *
from ..terms import *
from .c01 import result, fields

LEVEL = 'other'
EXPLANATION = ('Trace-partitioned abstract interpretation of write_header over a fully symbolic header value and a writer that may fail at '
               'any write: the byte sequence written is compared, in normal form, with the RFC 6455 layout.')


def written(st, sid):
    """bytes written completely / attempted last (failed) on a writer"""
    out, failed = (), None
    for e in st.ev:
        if e[0] == 'wr' and e[1] == sid:
            out += tuple(e[2])
        elif e[0] == 'wr!' and e[1] == sid:
            failed = tuple(e[2])
        elif e[0] in ('write', 'write!') and e[1] == sid:
            raise Unsupported('partial write')
    return seqnorm(out), failed


def whole_writes(ctx, ip, st):
    """states of st in which every run of plain writes that each offer all that is left of the same bytes is one event: a complete
    write ('wr'), a failed one ('wr!', ending in an error or in a writer that accepts nothing), or ('write', sid, bytes, accepted)"""
    if not any(e[0] in ('write', 'write!') for e in st.ev):
        yield st
        return
    if any(e[0] == 'loop' for e in st.ev):
        # the events of the iterations an approximated loop has skipped are not known
        t = st.copy()
        t.ev = t.ev + (('w?', None),)
        yield t
        return
    work = [(st, 0, [], None)]      # state, next event, events so far, open run (sid, bytes, accepted, last event)
    while work:
        s, i, out, run = work.pop()
        e = s.ev[i] if i < len(s.ev) else None
        if e is not None and (run is None or e[1:2] != (run[0],)) and e[0] not in ('write', 'write!'):
            if run is None or e[0] not in ('wr', 'wr!'):
                work.append((s, i + 1, out + [e], run))
                continue
        if run is not None:
            rest = None
            if e is not None and e[0] in ('write', 'write!') and e[1] == run[0]:
                try:
                    _, rest = ip.cut(s.copy(), run[1], run[2])
                    same = ctx.same(s, seqnorm(e[2]), seqnorm(rest))
                except Split as x:
                    for a in x.alts:
                        t = s.copy()
                        if all(t.assume(q) for q in a) and not t.infeasible():
                            work.append((t, i, out, run))
                    continue
                except (Unsupported, TypeError):
                    same = None
                if same is None:
                    t = s.copy()
                    t.ev = tuple(out) + (('w?', run[0]),)
                    yield t
                    continue
                if same is not True:
                    rest = None
            if rest is None or s.prove(le(seqlen(run[1]), run[2])) is True:
                # the run ends here
                for s2, (short,) in ctx.cases(s, lt(run[2], seqlen(run[1]))):
                    if not short:
                        ev = ('wr', run[0], run[1])
                    elif run[3][0] == 'write!' or s2.prove(le(run[3][3], 0)) is True:
                        ev = ('wr!', run[0], run[1])
                    else:
                        ev = ('write', run[0], run[1], run[2])
                    # the events after the run do not belong to it
                    work.append((s2, i, out + [ev], None))
                continue
            work.append((s, i + 1, out, (run[0], run[1], run[2] if e[0] == 'write!' else add(run[2], e[3]), e)))
            continue
        if e is None:
            t = s.copy()
            t.ev = tuple(out)
            yield t
            continue
        if e[0] in ('write', 'write!'):
            work.append((s, i + 1, out, (e[1], seqnorm(e[2]), e[3] if e[0] == 'write' else 0, e)))
        else:
            work.append((s, i + 1, out + [e], run))


def expected_header(flags, opcode, is_some, key, ln, cls):
    """cls 0: 7 bit, 1: 16 bit, 2: 64 bit"""
    b0 = add(flags, opcode)
    m = 128 if is_some else 0
    if cls == 0:
        out = (('1', b0), ('1', add(ln, m)))
    else:
        n = 2 if cls == 1 else 8
        out = (('1', b0), ('1', m + (126 if cls == 1 else 127)), ('be', ln, n))
    if is_some:
        out += key
    return out


def byte_at(ln, k):
    """k-th byte (little end 0) of a length term"""
    if isinstance(ln, int):
        return ln >> (8 * k) & 255
    return ('L', 0, ((('op', 'byte', ln, k, (0, 255)), 1),))


def be_segs(ip, st, ln, n):
    return tuple(('1', x) for x in reversed([ip.byte_of(st, ln, k) for k in range(n)]))


def run(ctx):
    w = ctx.world('base')
    fn = ctx.fn('base', 'write_header')
    ip = ctx.interp('base')
    args = ctx.args(ip, fn)
    hdr = args[1]
    f = {n: ip.sym_field(hdr, i) for i, (n, _) in enumerate(w.types[hdr[1]]['variants'][0][2])}
    bits = ip.read(State(), ('c', f['flags']), ())
    bits = ip.sym_field(f['flags'], 0) if f['flags'][0] == 'sy' else f['flags'][2][0]
    st = State()
    # the flags are one of the sixteen combinations of the four defined bits
    fa, vals = one_tab(bits)
    st.assume(('dom', fa, sum(1 << i for i in range(256) if i & 0x0F == 0)))
    outs = ctx.run(ip, fn, args, st)
    where = 'websocket-base/src/ws/util/header.rs:write_header'
    ln, op, mask = f['len'], f['opcode'], f['mask']
    masked = ip.discr(State(), mask)
    nok = nref = nfail = 0
    for o in outs:
        k, st, v = o
        if k == 'unk':
            ctx.undecided('modelled', where, str(v))
            continue
        if k == 'panic':
            ctx.refute('no-panic', 'panic', where, 'panics (%s at %s)' % (v[1], v[2]), st)
            continue
        r, x = result(ctx, w, v)
        sid = ('arg', 0)
        bad_op = fmap(op, lambda x: int(x > 15))
        ctrl = fmap(op, lambda x: int(x >= 8))
        for s, (b, c, long, c16, sm) in (y for s0 in whole_writes(ctx, ip, st) for y in ctx.cases(s0, bad_op, ctrl, lt(125, ln), lt(65535, ln), masked)):
            refuse = b or (c and long)
            if any(e[0] == 'w?' for e in s.ev):
                ctx.undecided('encoding', where, 'plain writes whose bytes are not resolved')
                continue
            out, failed = written(s, sid)
            if refuse:
                nref += 1
                if r == 'ok':
                    ctx.refute('refuses', 'writes-invalid', where, 'a header that cannot be encoded is written', s)
                elif out != () or failed is not None:
                    ctx.refute('refuses', 'refused-after-write', where, 'bytes are written before the header is refused', s)
                else:
                    ctx.ok('refuses')
                continue
            cls = 2 if c16 else 1 if long else 0
            key = ()
            if sm:
                kv = ip.enum_fields(s, mask, 1)[0]
                key = kv[2]
            m = 128 if sm else 0
            want = [('1', add(bits, fmap(op, lambda x: x & 15)))]
            if cls == 0:
                want += [('1', add(ln, m))]
            else:
                want += [('1', m + 125 + cls)] + list(be_segs(ip, s, ln, 2 if cls == 1 else 8))
            want = tuple(want) + key
            # bits and opcode are disjoint, so BitOr and addition agree
            if r == 'ok':
                nok += 1
                if failed is not None:
                    ctx.refute('reports-failure', 'ok-after-failed-write', where, 'success is reported although a write failed', s)
                    continue
                ctx.equal('encoding', 'bytes', where, 'the bytes written differ from the header layout', s, out, want, w)
            else:
                if failed is None:
                    ctx.refute('accepts', 'refuses-valid', where, 'a header that can be encoded is refused', s)
                    continue
                nfail += 1
                ctx.ok('reports-failure')
    ctx.rules.append('bytes written by write_header(header) == RFC 6455 5.2 layout for every header value; refusal leaves the writer untouched')
    if min(nok, nref, nfail) < 1:
        ctx.undecided('coverage', where, 'some outcome class is missing %s' % ((nok, nref, nfail),))
