"""Reference semantics of sending one frame, shared by C03, C04 and C07"""
from .check import *
from .spec import *
from .terms import *
from .frames import Sel, Mute, opcode_number, variant
from .props.c01 import result, fields
from .props.c02 import be_segs, whole_writes
from .values import shapes
from .entropy import judge

BASE = 'websocket-base/src/'
TYPES = {
    'frame': ('DataFrame', BASE + 'dataframe.rs:DataFrame'),
    'message': ('Message', BASE + 'message.rs:Message'),
    'owned': ('OwnedMessage', BASE + 'message.rs:OwnedMessage'),
    'part': ('a user supplied frame', BASE + 'ws/dataframe.rs:DataFrame'),
}
MTYPE = {'Text': 1, 'Binary': 2, 'Close': 8, 'Ping': 9, 'Pong': 10}


def probe(ctx, name):
    return ctx.fn('probe', 'probe::' + name)


def named(w, v):
    vs = w.types[v[1]]['variants']
    vi = v[2] if v[0] == 'en' else 0
    return {n: x for (n, _), x in zip(vs[vi][2], v[3] if v[0] == 'en' else v[2])}


def describe(ip, st, w, v):
    """what a frame or message value must look like on the wire: dict fin, rsv, op, payload, refuse"""
    d = {'fin': 1, 'rsv': (0, 0, 0), 'refuse': 0}
    t = w.types[v[1]]['path'].split('::')[-1]
    if v[0] == 'st':
        f = named(w, v)
    if t == 'DataFrame':
        d.update(fin=f['finished'], rsv=tuple(try_index(f['reserved'][2], i) for i in range(3)), op=opcode_number(w, f['opcode']), payload=f['data'][2])
    elif t == 'Part':
        d.update(fin=f['last'], rsv=tuple(try_index(f['bits'][2], i) for i in range(3)), op=f['code'], payload=f['first'][2] + f['second'][2], refuse=f['refuse'])
    elif t == 'Message':
        p = deref(ip, st, w, f['payload'])
        s = f['cd_status_code']
        head = tuple(be_segs(ip, st, s[3][0], 2)) if variant(w, s) == 'Some' else ()
        o = f['opcode']
        vs = [x[0] for x in w.types[o[1]]['variants']]
        op = MTYPE[vs[o[2]]] if o[0] == 'en' else tab(o[2], tuple(MTYPE[vs[i]] for i in o[3]))
        d.update(op=op, payload=head + p)
    else:
        n = variant(w, v)
        d['op'] = MTYPE[n]
        x = v[3][0]
        if n == 'Close':
            if variant(w, x) == 'Some':
                c = named(w, ip.expand(x[3][0]))
                d['payload'] = tuple(be_segs(ip, st, c['status_code'], 2)) + c['reason'][2]
            else:
                d['payload'] = ()
        else:
            d['payload'] = x[2]
    d['payload'] = seqnorm(d['payload'])
    return d


def deref(ip, st, w, v):
    """bytes of a Cow value"""
    x = v[3][0]
    if x[0] == 'p':
        return ip.seq_of(st, x)[0]
    return x[2]


def wire(ip, st, d, masked_, key):
    """(header bytes, payload bytes) for a state in which the class of the length is decided"""
    n = seqlen(d['payload'])
    out = []
    b0 = d['op']
    for b, k in ((d['fin'], 128), (d['rsv'][0], 64), (d['rsv'][1], 32), (d['rsv'][2], 16)):
        b0 = add(b0, mul(b, k))
    m = 128 if masked_ else 0
    if st.prove(le(n, 125)) is True if not isinstance(n, int) else n <= 125:
        out = [('1', b0), ('1', add(n, m))]
    elif st.prove(le(n, 65535)) is True if not isinstance(n, int) else n <= 65535:
        out = [('1', b0), ('1', m + 126)] + list(be_segs(ip, st, n, 2))
    else:
        out = [('1', b0), ('1', m + 127)] + list(be_segs(ip, st, n, 8))
    if masked_:
        out += list(key)
        return tuple(out), seqnorm(masked(key, 0, d['payload']))
    return tuple(out), d['payload']


def classes(ctx, s, d, mask):
    """(state, must be refused, masked) with the length class decided"""
    n = seqlen(d['payload'])
    for s1, (bad, ctrl, l1, l2, m, r) in ctx.cases(s, fmap_(d['op'], lambda x: int(x > 15)), fmap_(d['op'], lambda x: int(x >= 8)),
                                                   lt(125, n), lt(65535, n), mask, d['refuse']):
        yield s1, bool(bad or (ctrl and l1) or r), bool(m)


def fmap_(b, fn):
    return fmap(b, fn)


def writes(st, sids=None):
    return [e for e in st.ev if e[0] in ('wr', 'wr!', 'write', 'write!') and (sids is None or e[1] in sids)]


def header_key(ip, st, d, got):
    """the four bytes where the key of a masked frame is; unknown bytes when there are none"""
    n = seqlen(d['payload'])
    small, mid = (n <= x if isinstance(n, int) else st.prove(le(n, x)) is True for x in (125, 65535))
    at = 2 if small else 4 if mid else 10
    try:
        _, k = ip.cut(st, got, at)
        k, _ = ip.cut(st, k, 4)
        k = explode_bytes(k)
        if k is not None:
            return k
    except (Split, Unsupported, TypeError):
        pass
    return tuple(('1', ident(('f', ('nokey', i), 256))) for i in range(4))


def explode_bytes(segs):
    out = []
    for g in seqnorm(segs):
        if g[0] == 'k':
            out += [('1', b) for b in g[1]]
        elif g[0] == '1':
            out.append(g)
        elif g[0] == 's' and isinstance(g[3], int):
            out += [('1', elem_u8(g[1], add(g[2], i))) for i in range(g[3])]
        else:
            return None
    return tuple(out) if len(out) == 4 else None


def randoms(st):
    return [e[1] for e in st.ev if e[0] == 'random']


def check_send(ctx, groups, where, ip, w, outs, d, mask, memory=None, sink=None):
    """one send of the value described by d; mask: condition. memory: function state -> (before, after) of an in-memory sink"""
    sel = Sel(ctx, groups)
    cnt = {}
    for k, st, v in outs:
        if k == 'unk':
            ctx.undecided('send/modelled', where, str(v))
            continue
        if k == 'panic':
            for g in groups:
                sel(g).refute('send/no-panic', 'panic', where, 'panics (%s at %s)' % (v[1], v[2]), st)
            continue
        r, x = result(ctx, w, v)
        for s, refuse, m in (y for s0 in whole_writes(ctx, ip, st) for y in classes(ctx, s0, d, mask)):
            ws = writes(s)
            if any(e[0] == 'w?' for e in s.ev) or not memory and len(ws) != 1 and any(e[0] == 'loop' for e in s.ev):
                ctx.undecided('send/one-write', where, 'plain writes whose bytes are not resolved')
                continue
            key = ()
            if memory:
                a, b = memory(s)
                got = None
                if refuse or r == 'err':
                    cnt['refused'] = cnt.get('refused', 0) + 1
                    sel('whole').equal('send/untouched', 'written-before-refusal', where, 'bytes are added to the output although the frame is refused', s, b, a, w)
                    if r == 'ok':
                        sel('whole').refute('send/refuses', 'success-unencodable', where, 'success is reported although the frame cannot be encoded', s)
                    elif not refuse:
                        for g in ('whole', 'size'):
                            sel(g).refute('send/accepts', 'refuses-valid', where, 'a frame that can be encoded is refused', s)
                    continue
                cnt['ok'] = cnt.get('ok', 0) + 1
                pre, got = ip.cut(s, b, seqlen(a))
                sel('whole').equal('send/appends', 'overwrites', where, 'earlier output is changed', s, seqnorm(pre), seqnorm(a), w)
                failed = False
            else:
                if refuse:
                    cnt['refused'] = cnt.get('refused', 0) + 1
                    if r == 'ok':
                        sel('whole').refute('send/refuses', 'success-unencodable', where, 'success is reported although the frame cannot be encoded', s)
                    elif ws:
                        sel('whole').refute('send/untouched', 'written-before-refusal', where, 'bytes reach the stream although the frame cannot be encoded', s)
                    else:
                        sel('whole').ok('send/refuses')
                    continue
                if len(ws) != 1:
                    if not ws and r == 'err':
                        sel('whole').refute('send/accepts', 'refuses-valid', where, 'a frame that can be encoded is refused', s)
                    else:
                        sel('whole').refute('send/one-write', 'writes-%d' % len(ws), where, 'the frame is not sent by exactly one write (%d writes)' % len(ws), s)
                    got = seqnorm(sum((e[2] for e in ws if e[0] == 'wr'), ()))
                    if r == 'err' or any(e[0] != 'wr' for e in ws) or not ws:
                        continue
                else:
                    e = ws[0]
                    if e[0] not in ('wr', 'wr!'):
                        sel('whole').refute('send/one-write', 'partial-write', where, 'the frame is given to a write that may accept only part of it', s)
                        continue
                    if (r == 'ok') != (e[0] == 'wr'):
                        sel('whole').refute('send/outcome', 'outcome-' + r, where,
                                            'success is reported although the write failed' if r == 'ok' else 'an error is reported although the write succeeded', s)
                        continue
                    sel('whole').ok('send/one-write')
                    got = e[2]
                    if sink is not None and e[1] != sink:
                        sel('whole').refute('send/sink', 'sink', where, 'the frame is written somewhere else', s)
                cnt[r] = cnt.get(r, 0) + 1
            rs = randoms(s)
            if m:
                # the key is the one in the header, wherever it comes from
                key = header_key(ip, s, d, got)
            elif rs:
                sel('mask').ok('send/no-key-needed')
            head, body = wire(ip, s, d, m, key)
            sel('whole').equal('send/bytes', 'bytes', where, 'the bytes sent are not the encoded frame', s, seqnorm(got), seqnorm(head + body), w)
            sel('size').equal('send/length', 'length', where, 'the number of bytes sent is not the frame size', s, seqlen(got), seqlen(head + body), w)
            c = sel('mask')
            if isinstance(c, Mute):
                continue
            if m:
                if not rs and not any(n.startswith(('rand', 'getrandom')) for n in ip.soft):
                    c.refute('send/fresh-key', 'no-fresh-key', where, 'a frame that must be masked is sent without drawing a masking key', s, shared=True)
                    continue
                jd = judge([ctx.canon(s, s.nf(g[1])) for g in key], rs)
                if jd[0] == 'no':
                    c.refute('send/key', 'key', where, 'the key in the header is not freshly drawn for this frame: ' + jd[1], s, shared=True)
                elif jd[0] == 'fresh':
                    c.ok('send/key')
                else:
                    c.undecided('send/key', where, jd[1])
            try:
                b1 = try_index(seqnorm(got), 1)
                c.equal('send/mask-bit', 'mask-bit', where, 'the mask bit is not that of the role', s, fmap1(ctx.simp(s, b1), s), 1 if m else 0, w)
                h2, rest = ip.cut(s, got, len(head))
            except (Split, Unsupported, TypeError):
                c.undecided('send/mask', where, 'frame not resolved'); ctx.trace()
                continue
            c.equal('send/payload', 'payload', where, 'the payload sent is not the payload masked with the key of the header' if m else 'the payload of an unmasked frame is changed',
                    s, seqnorm(rest), body, w)
    return cnt


def fmap1(b, s):
    """top bit of a byte valued term"""
    if isinstance(b, int):
        return b >> 7
    try:
        return fmap(b, lambda x: x >> 7)
    except Exception:
        pass
    if s.prove(le(128, b)) is True:
        return 1
    if s.prove(le(b, 127)) is True:
        return 0
    raise Unsupported('mask bit %s | %s' % (str(b)[:300], str(s.bounds(b))))


def instances(ip, st, w, arg):
    """shapes of the value behind a reference argument or of an argument itself"""
    if arg[0] == 'p':
        t = arg[1][2]
        nm = arg[1][1]
    else:
        t, nm = arg[1], arg[2]
    return shapes(ip, t, nm)


def run_sends(ctx, groups, names, maskarg, sink=None, memory=False, pre=None):
    """names: probe functions whose last (or given) argument is the frame"""
    w = ctx.world('probe')
    tot = {}
    for name, where, fi in names:
        fn = probe(ctx, name)
        ip = ctx.interp('probe')
        args0 = ctx.args(ip, fn)
        for v in instances(ip, State(), w, args0[fi]):
            ip = ctx.interp('probe')
            st = State()
            args = list(args0)
            if args[fi][0] == 'p':
                st.mem[args[fi][1]] = v
            else:
                args[fi] = v
            mask = maskarg(ip, st, w, args)
            d = describe(ip, st, w, v)
            mem = None
            if memory:
                dst = args[-1]
                before = ip.read(st, dst[1], dst[2])[2]

                def mem(s, dst=dst, before=before, ip=ip):
                    return before, ip.read(s, dst[1], dst[2])[2]
            outs = ctx.run(ip, fn, args, st)
            c = check_send(ctx, groups, where, ip, w, outs, d, mask, mem)
            for q in c:
                tot[q] = tot.get(q, 0) + c[q]
    for q in ('ok', 'refused'):
        if not tot.get(q):
            ctx.undecided('send/coverage', str(names[0][1]), 'no outcome of kind ' + q)
    ctx.samples.append('sends analysed %s: outcome classes %s' % ([n[0] for n in names], tot))


DF = BASE + 'ws/dataframe.rs:DataFrame::'


def direct(ctx, groups):
    """write_to / serialize with an explicit mask argument"""
    run_sends(ctx, groups, [('write_frame', DF + 'write_to', 0), ('write_message', DF + 'write_to', 0), ('write_owned', DF + 'write_to', 0),
                            ('write_part', DF + 'write_to', 0), ('serialize_message', BASE + 'message.rs:Message::serialize', 0),
                            ('serialize_owned', BASE + 'message.rs:OwnedMessage::serialize', 0)], lambda ip, st, w, a: a[2])


def connection(ctx, groups):
    for pre, i, at in (('new_client_', 2, 'src/client/sync.rs:Client::'), ('new_writer_', 1, 'src/sender.rs:Writer::')):
        run_sends(ctx, groups, [(pre + 'frame', at + 'send_dataframe', -1), (pre + 'part', at + 'send_dataframe', -1),
                                (pre + 'message', at + 'send_message', -1), (pre + 'owned', at + 'send_message', -1)],
                  lambda ip, st, w, a, i=i: a[i])


def codec_mask(ip, st, w, a):
    from .frames import vindex
    return mk_eq(sub(ip.discr(st, a[0]), vindex(w, a[0][1], 'Client')))


def codecs(ctx, groups):
    at = BASE + 'codec/ws.rs:'
    run_sends(ctx, groups, [('encode_frame', at + 'DataFrameCodec::encode', 1), ('encode_part', at + 'DataFrameCodec::encode', 1),
                            ('encode_message', at + 'MessageCodec::encode', 1), ('encode_owned', at + 'MessageCodec::encode', 1)],
              codec_mask, memory=True)
