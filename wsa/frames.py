"""Reference semantics of reading one frame, shared by C05, C10, C12 and C13"""
from .check import *
from .spec import *
from .terms import *
from .props.c01 import result, fields, read_fail

U32 = (1 << 32) - 1


def variant(w, v):
    return w.types[v[1]]['variants'][v[2]][0] if v[0] == 'en' else None


def vindex(w, t, name):
    for i, v in enumerate(w.types[t]['variants']):
        if v[0] == name:
            return i
    raise Anchor('variant %s' % name)


def option(w, v):
    """None | value, 'unresolved' when the value is not decided"""
    if v[0] != 'en':
        return 'unresolved'
    return v[3][0] if variant(w, v) == 'Some' else None


def codec_decode(ctx, fn_new='new_with_limits'):
    """runs decode on every codec value the constructor returns: yields (outcome, role condition, limit, base)"""
    w = ctx.world('base')
    new = ctx.one('base', 'new_with_limits', 'DataFrameCodec')
    dec = ctx.one('base', 'decode', 'DataFrameCodec', 'Decoder')
    ip = ctx.interp('base')
    cargs = ctx.args(ip, new, 'new')
    st = State()
    server = mk_eq(sub(ip.discr(st, cargs[0]), vindex(w, cargs[0][1], 'Server')))
    lim = cargs[1]
    for k, s, v in ctx.run(ip, new, cargs, st):
        if k != 'ret':
            yield None, (k, s, v), None, None, None
            continue
        dargs = ctx.args(ip, dec, 'dec')
        s.mem[dargs[0][1]] = v
        outs = ip.exec_fn(dec, dargs, s, 0)
        ctx.note_run(ip, dec, outs)
        for o in outs:
            yield ip, o, server, lim, dargs[1]


def header_classes(ctx, s, h, n):
    """cases of a header of which n bytes are available (n None: all).
    Yields (state, d) with d: head (header complete), inv (known invalid), masked, ln, hl, lenknown"""
    for s1, (two,) in ctx.cases(s, 1 if n is None else le(2, n)):
        if not two:
            yield s1, {'head': False, 'inv': False, 'lenknown': False, 'masked': None, 'ln': None, 'hl': None}
            continue
        for s2, (i16, i64, m, ctrl, fin) in ctx.cases(s1, h.is16, h.is64, h.masked, h.ctrl, h.fin):
            ext, ln, mo, hl = h.resolve(i16, i64, m)
            early = ctrl and (not fin or i16 or i64)
            for s3, (known, head) in ctx.cases(s2, 1 if n is None else le(2 + ext, n), 1 if n is None else le(hl, n)):
                if not known:
                    yield s3, {'head': False, 'inv': early, 'lenknown': False, 'masked': m, 'ln': None, 'hl': hl}
                    continue
                for s4, (nonmin,) in ctx.cases(s3, le(ln, 125) if i16 else le(ln, 65535) if i64 else 0):
                    yield s4, {'head': head, 'inv': bool(early or nonmin), 'lenknown': True, 'masked': m, 'ln': ln, 'hl': hl,
                               'key': mo}


def outcome(ctx, w, o, name, where, alarm_panic=True):
    """the (result, payload) of a Result returning outcome, reporting anything else"""
    k, st, v = o
    if k == 'unk':
        ctx.undecided(name + '/modelled', where, str(v))
        return None
    if k == 'panic':
        if alarm_panic:
            ctx.refute(name + '/no-panic', 'panic-%s' % (str(v[1])[:40],), where, 'panics (%s at %s)' % (v[1], v[2]), st)
        return None
    return result(ctx, w, v)


def payload(h, d, start, base):
    """expected application data of a frame whose header starts at offset start of base"""
    off = add(start, d['hl'])
    raw = (('s', base, off, d['ln']),)
    if d['masked']:
        key = tuple(('1', h.b(d['key'] + i)) for i in range(4))
        return seqnorm(masked(key, 0, raw))
    return seqnorm(raw)


def check_frame_value(ctx, w, name, where, s, f, h, d, start, base):
    """the frame value equals what its bytes say"""
    g = fields(ctx, w, f)
    ctx.equal(name + '/fin', 'fin', where, 'the final bit of the frame differs from the header', s, g['finished'], h.fin, w)
    op = g['opcode']
    code = opcode_number(w, op)
    if code is None:
        ctx.undecided(name + '/opcode', where, 'opcode value not resolved')
    else:
        ctx.equal(name + '/opcode', 'opcode', where, 'the opcode of the frame differs from the header', s, code, h.op, w)
    rs = g['reserved'][2]
    want = [fmap(h.b0, lambda x, k=k: x >> k & 1) for k in (6, 5, 4)]
    got = [try_index(rs, i) for i in range(3)]
    if None in got:
        ctx.undecided(name + '/reserved', where, 'reserved bits not resolved')
    else:
        for i in range(3):
            ctx.equal(name + '/reserved', 'reserved', where, 'a reserved bit of the frame differs from the header', s, got[i], want[i], w)
    ctx.equal(name + '/payload', 'payload', where, 'the payload of the frame differs from the (unmasked) payload bytes', s,
              g['data'][2], payload(h, d, start, base), w)


OPC = {'Continuation': 0, 'Text': 1, 'Binary': 2, 'Close': 8, 'Ping': 9, 'Pong': 10}


def opcode_number(w, op):
    """RFC number of an Opcode value, through the variant names"""
    vs = w.types[op[1]]['variants']

    def num(n):
        if n in OPC:
            return OPC[n]
        m = {'NonControl': 2, 'Control': 10}
        for p, b in m.items():
            if n.startswith(p) and n[len(p):].isdigit():
                return b + int(n[len(p):])
        raise Anchor('opcode variant %s' % n)
    if op[0] == 'en':
        return num(vs[op[2]][0])
    if op[0] == 'et':
        return tab(op[2], tuple(num(vs[i][0]) if 0 <= i < len(vs) else 255 for i in op[3]))
    return None


class Sel:
    """routes obligations to the context when their group is selected"""

    def __init__(self, ctx, groups):
        self.ctx = ctx
        self.groups = groups

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def __call__(self, group):
        return self.ctx if group in self.groups else Mute(self.ctx)


class Mute:
    def __init__(self, ctx):
        self.c = ctx

    def _nop(self, *a, **k):
        return None

    ok = fail = undecided = refute = holds = equal = _nop

    def __getattr__(self, n):
        return getattr(self.c, n)


ALLOC = 1 << 20


def check_prealloc(c, name, where, st, bound):
    for e in st.ev:
        if e[0] == 'prealloc':
            amount = mul(e[1], e[2]) if isinstance(e[2], int) else e[1]
            ok = le(amount, ALLOC)
            got = 0
            for k, v in st.pos.items():
                if k[0] == 'rd':
                    got = add(got, v)
            if any(x is True or st.prove(x) is True for x in (bool(ok) if isinstance(ok, int) else ok, st.nf(le(amount, got)))):
                # a bounded request, or one for bytes that have been received
                c.ok(name)
                continue
            if bound is None:
                c.holds(name, 'preallocation', where, 'memory for more than %d bytes is requested on the strength of a length the peer declared' % ALLOC, st, ok)
            else:
                c.holds(name, 'preallocation', where, 'memory beyond the frame limit is requested on the strength of a length the peer declared', st,
                        le(amount, bound))


def clamp_cases(ctx, s, lim):
    """effective frame limit: the configured one, at most what 32 bits hold"""
    for s1, (big,) in ctx.cases(s, lt(U32, lim)):
        yield s1, (U32 if big else lim)


def check_decode(ctx, groups):
    """the asynchronous frame decoder"""
    sel = Sel(ctx, groups)
    w = ctx.world('base')
    where = 'websocket-base/src/codec/ws.rs:DataFrameCodec::decode'
    cnt = {}
    for ip, o, server, lim, src in codec_decode(ctx):
        if ip is None:
            ctx.undecided('decode', where, 'constructor: ' + str(o[2])[:200])
            continue
        k, st, v = o
        r = outcome(sel('panic'), w, o, 'decode', where) if k == 'panic' else outcome(ctx, w, o, 'decode', where)
        if r is None:
            continue
        r, x = r
        base = src[1][1]
        h = Hdr(base)
        n0 = lenof(base)
        after = ip.read(st, src[1], src[2])
        after = after[2] if after[0] in ('vec', 'bm') else (('s', base, 0, n0),)
        whole = (('s', base, 0, n0),)
        got = None
        if r == 'ok':
            got = option(w, x)
            if got == 'unresolved':
                ctx.undecided('decode', where, 'result not resolved')
                continue
        for s0, limit in clamp_cases(ctx, st, lim):
            check_prealloc(sel('limit'), 'decode/no-allocation', where, s0, limit)
            for s, d in header_classes(ctx, s0, h, n0):
                for s2, (srv, over) in ctx.cases(s, server, lt(limit, d['ln']) if d['lenknown'] else 0):
                    mism = d['masked'] is not None and bool(d['masked']) != srv
                    full = None
                    conds = [le(add(d['hl'], d['ln']), n0)] if d['head'] else [0]
                    for s3, (full,) in ctx.cases(s2, *conds):
                        key = 'err' if r == 'err' else 'none' if got is None else 'frame'
                        cnt[key] = cnt.get(key, 0) + 1
                        if r == 'err':
                            # an error needs a reason that is visible in the bytes received so far
                            if d['inv'] or over or mism:
                                sel('limit').ok('decode/errors')
                                sel('consume').ok('decode/errors')
                                sel('mask').ok('decode/errors')
                                continue
                            if not d['head'] or not full:
                                sel('consume').refute('decode/waits', 'error-on-prefix', where, 'the prefix of a frame is answered with an error', s3)
                                sel('limit').refute('decode/accepts-within', 'refuses-within', where, 'a frame within the limit is refused before it is complete', s3)
                            else:
                                sel('consume').refute('decode/accepts', 'refuses-valid', where, 'a complete valid frame is refused', s3)
                                sel('limit').refute('decode/accepts-within', 'refuses-within', where, 'a valid frame within the limit is refused', s3)
                                sel('mask').refute('decode/accepts', 'refuses-right-mask', where, 'a correctly masked frame is refused', s3)
                            continue
                        if got is None:
                            sel('consume').equal('decode/prefix-unchanged', 'prefix-consumed', where,
                                                 'asking for more data although buffered bytes were consumed or changed', s3, seqnorm(after), whole, w)
                            if d['head'] and d['inv']:
                                sel('consume').refute('decode/rejects', 'waits-on-invalid', where, 'an invalid header is not reported', s3)
                            elif d['head'] and over:
                                sel('limit').refute('decode/refuses-over', 'waits-over-limit', where,
                                                    'the payload of a frame over the limit is awaited instead of refusing it', s3)
                            elif full:
                                g = 'mask' if mism else 'consume'
                                sel(g).refute('decode/yields', 'waits-on-complete', where, 'a complete frame is not delivered', s3)
                            else:
                                sel('consume').ok('decode/waits')
                                sel('limit').ok('decode/refuses-over')
                            continue
                        if not full:
                            sel('consume').refute('decode/whole', 'short-frame', where, 'a frame is delivered although it is not complete', s3)
                            continue
                        if d['inv']:
                            sel('consume').refute('decode/rejects', 'accepts-invalid', where, 'a frame with an invalid header is delivered', s3)
                            continue
                        if over:
                            sel('limit').refute('decode/refuses-over', 'accepts-over-limit', where, 'a frame over the limit is delivered', s3)
                            continue
                        sel('limit').ok('decode/refuses-over')
                        if mism:
                            sel('mask').refute('decode/mask', 'accepts-wrong-mask', where,
                                               'a%s frame is delivered by a %s' % (' masked' if d['masked'] else 'n unmasked', 'server' if srv else 'client'), s3)
                            continue
                        sel('mask').ok('decode/mask')
                        end = add(d['hl'], d['ln'])
                        sel('consume').equal('decode/consumed', 'consumed', where, 'the buffer after a frame is not exactly what followed the frame', s3,
                                             seqnorm(after), seqnorm((('s', base, end, sub(n0, end)),)), w)
                        sel('consume').equal('decode/fin', 'fin', where, 'the final bit of the frame differs from the header', s3,
                                             fields(ctx, w, got)['finished'], h.fin, w)
                        for g in ('consume', 'mask'):
                            c = sel(g)
                            if isinstance(c, Mute):
                                continue
                            if g == 'consume':
                                check_frame_value(c, w, 'decode/frame', where, s3, got, h, d, 0, base)
                            else:
                                c.equal('decode/payload', 'payload', where, 'the payload differs from the (unmasked) payload bytes', s3,
                                        fields(ctx, w, got)['data'][2], payload(h, d, 0, base), w)
    for k in ('err', 'none', 'frame'):
        if not cnt.get(k):
            ctx.undecided('decode/coverage', where, 'no outcome of kind ' + k)
    ctx.samples.append('asynchronous frame decoder: outcome classes %s' % cnt)


def stream_of(st):
    for e in st.ev:
        if e[0] in ('rd', 'rd!', 'rdeof'):
            return e[1]
    return None


def check_blocking(ctx, groups, w, where, outs, should, lim, ip):
    """a blocking frame reader: should = condition under which frames must be masked, lim = configured limit or None"""
    sel = Sel(ctx, groups)
    cnt = {}
    for o in outs:
        k, st, v = o
        r = outcome(sel('panic'), w, o, 'read', where) if k == 'panic' else outcome(ctx, w, o, 'read', where)
        if r is None:
            continue
        r, x = r
        sid = stream_of(st)
        if sid is None:
            ctx.undecided('read', where, 'nothing is read')
            continue
        for s0, limit in (clamp_cases(ctx, st, lim) if lim is not None else [(st, None)]):
            check_prealloc(sel('limit' if lim is not None else 'panic'), 'read/no-allocation', where, s0, limit)
            fail = read_fail(st, sid)
            if fail is not None:
                cnt['fail'] = cnt.get('fail', 0) + 1
                if r == 'ok':
                    sel('consume').refute('read/short-stream', 'frame-after-short', where, 'a frame is delivered although the stream failed or ended inside it', s0)
                else:
                    sel('consume').ok('read/short-stream')
                continue
            pos = s0.pos.get(('rd', sid), 0)
            base = ('stream', sid)
            h = Hdr(base)
            for s, d in header_classes(ctx, s0, h, None):
                for s2, (srv, over) in ctx.cases(s, should, lt(limit, d['ln']) if limit is not None else 0):
                    mism = bool(d['masked']) != srv
                    end = add(d['hl'], d['ln'])
                    cnt[r] = cnt.get(r, 0) + 1
                    if r == 'err':
                        if d['inv'] or over or mism:
                            if over and not d['inv']:
                                sel('limit').holds('read/refuses-over', 'awaits-over-limit', where,
                                                   'the payload of a frame over the limit is read before it is refused', s2, le(pos, d['hl']))
                            for g in ('consume', 'mask'):
                                sel(g).ok('read/errors')
                        else:
                            sel('limit').refute('read/accepts-within', 'refuses-within', where, 'a valid frame within the limit is refused', s2)
                            sel('consume').refute('read/accepts', 'refuses-valid', where, 'a complete valid frame is refused', s2)
                            sel('mask').refute('read/accepts', 'refuses-right-mask', where, 'a correctly masked frame is refused', s2)
                        continue
                    if d['inv']:
                        sel('consume').refute('read/rejects', 'accepts-invalid', where, 'a frame with an invalid header is delivered', s2)
                        continue
                    if over:
                        sel('limit').refute('read/refuses-over', 'accepts-over-limit', where, 'a frame over the limit is delivered', s2)
                        continue
                    if mism:
                        sel('mask').refute('read/mask', 'accepts-wrong-mask', where, 'a frame masked wrongly for the role is delivered', s2)
                        continue
                    sel('mask').ok('read/mask')
                    sel('limit').ok('read/accepts-within')
                    c = sel('consume')
                    c.equal('read/consumed', 'consumed', where, 'the bytes consumed are not exactly those of the frame', s2, pos, end, w)
                    if not isinstance(c, Mute):
                        check_frame_value(c, w, 'read/frame', where, s2, x, h, d, 0, base)
                    c = sel('mask')
                    if not isinstance(c, Mute):
                        c.equal('read/payload', 'payload', where, 'the payload differs from the (unmasked) payload bytes', s2,
                                fields(ctx, w, x)['data'][2], payload(h, d, 0, base), w)
    for k in ('ok', 'err', 'fail'):
        if not cnt.get(k):
            ctx.undecided('read/coverage', where, 'no outcome of kind ' + k)
    ctx.samples.append('%s: outcome classes %s' % (where, cnt))


def check_readers(ctx, groups):
    """every public way to read one frame from a blocking stream"""
    w = ctx.world('base')
    for nm, lim_arg in (('read_dataframe', None), ('read_dataframe_with_limit', 2)):
        fn = ctx.one('base', nm, 'DataFrame')
        ip = ctx.interp('base')
        args = ctx.args(ip, fn)
        outs = ctx.run(ip, fn, args)
        lim = args[lim_arg] if lim_arg is not None else None
        where = 'websocket-base/src/dataframe.rs:DataFrame::' + nm
        if lim is not None:
            # the reader itself takes any limit; clamping is the constructors' business
            outs = [(k, s, v) for k, s, v in outs if s.assume(('le', sub(lim, U32)))]
        check_blocking(ctx, groups, w, where, outs, args[1], lim, ip)
    # the connection's own frame reader, on every connection its constructor builds
    ww = ctx.world('ws')
    new = ctx.one('ws', 'unchecked_with_limits', 'Client')
    rcv = ctx.one('ws', 'recv_dataframe', 'Client')
    ip = ctx.interp('ws')
    cargs = ctx.args(ip, new, 'new')
    where = 'src/client/sync.rs:Client::recv_dataframe'
    allouts = []
    for k, s, v in ctx.run(ip, new, cargs):
        if k != 'ret':
            ctx.undecided('read', where, 'constructor: ' + str(v)[:200])
            continue
        rargs = ctx.args(ip, rcv, 'rcv')
        s.mem[rargs[0][1]] = v
        outs = ip.exec_fn(rcv, rargs, s, 0)
        ctx.note_run(ip, rcv, outs)
        allouts += outs
    check_blocking(ctx, groups, ww, where, allouts, cargs[3], cargs[4], ip)
