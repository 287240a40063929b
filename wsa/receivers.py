"""Reference semantics of receiving messages, on top of the (separately checked) frame readers.

The frame readers are replaced by their contract: a call yields the next of K symbolic frames, or nothing for now (blocking: an error of the
stream, asynchronous: None). from_dataframes is replaced by its contract: an opaque message or error made of exactly the frames given."""
from .check import *
from .spec import *
from .terms import *
from .frames import Sel, Mute, U32, variant
from .senders import BASE, probe, describe
from .props.c01 import result

MANY = 1 << 24
NF = ('frames', 'n')


def source(frames, ds, K, log=None):
    def count(st):
        return st.pos.get(NF, 0)

    def next_frame(c, wrap, pause):
        n = count(c.st)
        if not isinstance(n, int):
            raise Unsupported('frame counter of a generalised loop')
        out = []
        s2 = c.st.copy()
        c.st.nsplit += 1
        s2.nsplit += 1
        extra = log(c) if log else ()
        if n < K:
            c.st.pos[NF] = n + 1
            c.st.ev = c.st.ev + (('frame', n) + extra,)
            # a control frame is never fragmented: the header decoder refuses that
            ctrl = fmap(ds[n]['op'], lambda y: int(y >= 8))
            for s, i in c.split_states([(cond(mk_eq(ctrl)),), (cond(mk_eq(sub(ctrl, 1))), cond(mk_eq(sub(ds[n]['fin'], 1))))]):
                out.append(('ret', s, wrap(frames[n])))
        s2.ev = s2.ev + (('pause', n) + extra,)
        out.append(('ret', s2, pause(s2, n)))
        return out

    def blocking(c):
        et = c.fieldty(c.dty, 1, 0)
        return next_frame(c, c.ok, lambda s, n: c.err(('sy', et, ('transport', s.fresh()))))

    def decode(c):
        ot = c.fieldty(c.dty, 0, 0)
        return next_frame(c, lambda v: c.ok(('en', ot, 1, (v,))), lambda s, n: c.ok(('en', ot, 0, ())))

    def assemble(c):
        n = c.st.fresh()
        v = c.ip.expand(c.args[0])
        s2 = c.st.copy()
        c.st.nsplit += 1
        s2.nsplit += 1
        c.st.ev = c.st.ev + (('assembled', n, v[2]),)
        s2.ev = s2.ev + (('refused', n, v[2]),)
        ot, et = c.fieldty(c.dty, 0, 0), c.fieldty(c.dty, 1, 0)
        return [('ret', c.st, c.ok(('sy', ot, ('assembled', n)))), ('ret', s2, c.err(('sy', et, ('refused', n))))]

    D = 'websocket_base::dataframe::DataFrame::'
    return {D + 'read_dataframe_with_limit': blocking, D + 'read_dataframe': blocking,
            '<websocket_base::codec::ws::DataFrameCodec as tokio_codec::decoder::Decoder>::decode': decode,
            'Decoder::decode': lambda c: decode(c) if 'DataFrameCodec' in str(c.path) else NotImplemented,
            'Message::from_dataframes': assemble}


ENDPOINTS = {
    # name: (constructor, receive, index of the limits in the constructor's arguments, location, result)
    'receiver': ('new_receiver', 'recv_frames', (1, 2), 'src/receiver.rs:Receiver::recv_message_dataframes', 'frames'),
    'receiver-message': ('new_receiver', 'recv_owned', (1, 2), 'websocket-base/src/ws/receiver.rs:Receiver::recv_message', 'message'),
    'client': ('new_client', 'client_recv_owned', (4, 5), 'src/client/sync.rs:Client::recv_message', 'message'),
    'codec': ('new_codec', 'decode_message', (1, 2), 'websocket-base/src/codec/ws.rs:MessageCodec::decode', 'message'),
}


def cond(c):
    f, vals = one_tab(c)
    return ('dom', f, sum(1 << i for i, x in enumerate(vals) if x))


class Item:
    def __init__(self, st, buf, last=None, calls=0):
        self.st, self.buf, self.last, self.calls = st, buf, last, calls


def explore(ctx, groups, kind, K, buffer=None):
    new, recv, lims, at, res = ENDPOINTS[kind]
    sel = Sel(ctx, groups)
    w = ctx.world('probe')
    fnew, frecv = probe(ctx, new), probe(ctx, recv)
    ip = ctx.interp('probe')
    ft = frame_type(w)
    frames = [expand(ip, ip.sym(ft, ('frame', i))) for i in range(K)]
    ds = [describe(ip, State(), w, f) for f in frames]
    ip = ctx.interp('probe', source(frames, ds, K))
    ip.unroll = (24, 12) if buffer else (100, 40)
    nargs = ctx.args(ip, fnew, 'new')
    rargs = ctx.args(ip, frecv, 'recv')
    limit = nargs[lims[1]]
    work = []
    frames_ = frames
    for k, st, v in ctx.run(ip, fnew, nargs):
        if k != 'ret':
            ctx.undecided('receive/modelled', at, str(v))
            continue
        for st2, m in limits(ctx, st, limit):
            st2.mem[rargs[0][1]] = v
            it = Item(st2, ())
            if buffer:
                v2, seg = with_buffer(ip, w, v, ft)
                if v2 is None:
                    ctx.undecided('receive/modelled', at, 'no collection of frames in the receiver')
                    return
                st2.mem[rargs[0][1]] = v2
                st2.assume(('le', sub(1, seg[3])))
                it = Item(st2, ('B',))
                ds = Frames(ds, seg)
                frames_ = Frames(frames, seg)
            it.limit = m
            work.append(it)
    cnt = {}
    while work:
        it = work.pop()
        n0 = it.st.pos.get(NF, 0)
        e0 = len(it.st.ev)
        outs = ip.exec_fn(frecv, list(rargs), it.st.copy(), 0)
        ctx.note_run(ip, frecv, outs)
        for k, st, v in outs:
            if k == 'unk':
                ctx.undecided('receive/modelled', at, str(v))
                continue
            if k == 'panic':
                for g in groups:
                    sel(g).refute('receive/no-panic', 'panic', at, 'panics (%s at %s)' % (v[1], v[2]), st)
                continue
            if any(e[0] == 'loop' for e in st.ev[e0:]):
                ctx.undecided('receive/modelled', at, 'the reading loop could not be unrolled')
                continue
            for t in judge(ctx, sel, w, ip, at, res, it, st, v, frames_, ds, n0, e0, cnt):
                if t.st.pos.get(NF, 0) < K and t.calls < K + 1:
                    work.append(t)
    for q in ('delivered', 'control', 'pause', 'refused') if not buffer else ('delivered', 'control', 'pause'):
        if not cnt.get(q):
            ctx.undecided('receive/coverage', at, 'no outcome of kind ' + q)
    ctx.samples.append('%s, sequences of up to %d frames: %s' % (at, K, cnt))


class Frames(list):
    """frames received, after a collection of any number of earlier ones"""

    def __init__(self, l, seg):
        list.__init__(self, l)
        self.seg = seg


def with_buffer(ip, w, v, ft):
    """(value with its collection of frames replaced by a symbolic one, that one)"""
    if v[0] == 'vec' and v[1] == ft:
        seg = ('s', ('collected',), 0, lenof(('collected',)))
        return ('vec', ft, (seg,)), seg
    if v[0] == 'st':
        for i, x in enumerate(v[2]):
            if isinstance(x, tuple) and x:
                y, seg = with_buffer(ip, w, x, ft)
                if y is not None:
                    return ('st', v[1], v[2][:i] + (y,) + v[2][i + 1:]), seg
    return None, None


def limits(ctx, st, limit):
    if limit is None:
        return [(st, None)]
    return [(s, U32 if big else limit) for s, (big,) in ctx.cases(st, lt(U32, limit))]


def frame_type(w):
    for f in w.roots:
        if f['path'] == 'probe::assemble_frames':
            t = w.types[f['locals'][1]]
            break
    a = [x for x in t['args'] if isinstance(x, int)] if 'args' in t else []
    return a[0]


def judge(ctx, sel, w, ip, at, res, it, st, v, frames, ds, n0, e0, cnt):
    """compares one call with the reference; returns the items to go on with"""
    n1 = st.pos.get(NF, 0)
    ev = [e for e in st.ev[e0:] if e[0] in ('frame', 'pause', 'assembled', 'refused')]
    paused = [i for i, e in enumerate(ev) if e[0] == 'pause']
    r, x = result(ctx, w, v)
    out = []
    # what the call returned: pause, message of some frames, error
    got = None
    how = 'err'
    if r == 'ok':
        x = ip.expand(x) if isinstance(x, tuple) and x and x[0] == 'sy' and x[2][0] != 'assembled' else x
        if x[0] == 'en' and variant(w, x) in ('Some', 'None'):
            if variant(w, x) == 'None':
                how, x = 'pause', None
            else:
                x = x[3][0]
        if how != 'pause':
            how = 'msg'
            if res == 'frames':
                got = seqnorm(ip.expand(x)[2])
            else:
                a = [e for e in ev if e[0] == 'assembled']
                if x[0] == 'sy' and a and x[2] == ('assembled', a[-1][1]):
                    got = seqnorm(a[-1][2])
                else:
                    sel('order').undecided('receive/delivers', at, 'the message delivered is not made by from_dataframes')
                    return []
    else:
        if x[0] == 'sy' and x[2][0] == 'refused':
            a = [e for e in ev if e[0] == 'refused']
            how, got = 'msg', seqnorm(a[-1][2])
            refused_by_assembly = True
        elif x[0] == 'sy' and x[2][0] == 'transport':
            how = 'pause'
    if paused and how != 'pause':
        # the stream had no frame yet, but something else than that is reported
        if how == 'msg':
            sel('order').refute('receive/pause', 'message-after-pause', at, 'something is delivered although the stream has no further frame', st)
        else:
            sel('order').refute('receive/pause', 'error-after-pause', at, 'a protocol error is reported although the stream merely has no further frame', st)
        return []
    todo = [(st, it.buf, n0)]
    while todo:
        s, buf, i = todo.pop()
        if i == n1:
            # all frames consumed without a reason to stop
            if how == 'pause':
                cnt['pause'] = cnt.get('pause', 0) + 1
                sel('order').ok('receive/pause')
                t = Item(s, buf, None, it.calls + 1)
                t.limit = it.limit
                out.append(t)
            elif how == 'msg':
                sel('order').refute('receive/complete', 'early', at, 'a message is delivered before its final frame was received' if buf else 'a message is delivered out of nothing', s)
            else:
                # only a limit may be the reason
                if not buf:
                    sel('order').refute('receive/no-error', 'error', at, 'an error is reported for a sequence of frames that is fine', s)
                    continue
                tot = total(buf, ds)
                if tot is None:
                    sel('limit').ok('receive/over-limit')
                    continue
                for s2, (below,) in ctx.cases(s, lt(add(tot, 64 * len(buf)), it.limit)):
                    if below:
                        for g in ('order', 'limit'):
                            sel(g).refute('receive/no-error', 'error', at, 'an error is reported for fragments that are in order and within the message limit', s2)
                    else:
                        cnt['limit'] = cnt.get('limit', 0) + 1
                        sel('limit').ok('receive/over-limit')
            continue
        d = ds[i]
        last = i == n1 - 1
        for s2, (cont, ctrl, fin) in ctx.cases(s, fmap(d['op'], lambda y: int(y == 0)), fmap(d['op'], lambda y: int(y >= 8)), d['fin']):
            if ctrl:
                cnt['control'] = cnt.get('control', 0) + 1
                if not last or how == 'pause':
                    sel('order').refute('receive/control', 'control-withheld', at, 'a control frame is not delivered at once', s2)
                elif how == 'err':
                    sel('order').refute('receive/control', 'control-error', at, 'a control frame is answered by an error', s2)
                else:
                    deliver(sel, w, at, s2, got, (i,), frames, 'control')
                    t = Item(s2, buf, None, it.calls + 1)
                    t.limit = it.limit
                    if r == 'ok':
                        out.append(t)
                continue
            if cont and not buf or not cont and buf:
                cnt['refused'] = cnt.get('refused', 0) + 1
                what = 'a continuation frame without a message to continue' if cont else 'a new data frame inside a fragmented message'
                if not last or how != 'err':
                    sel('order').refute('receive/refuses', 'accepts-' + ('continuation' if cont else 'data'), at, what + ' is accepted', s2)
                else:
                    sel('order').ok('receive/refuses')
                continue
            b2 = buf + (i,)
            if fin:
                if not last or how == 'pause':
                    sel('order').refute('receive/complete', 'late', at, 'a complete message is not delivered', s2)
                elif how == 'err':
                    # the final frame may be refused for the size of what was collected before
                    for g in ('order', 'limit'):
                        sel(g).refute('receive/complete', 'complete-error', at, 'an error is reported for a complete message', s2)
                else:
                    cnt['delivered'] = cnt.get('delivered', 0) + 1
                    deliver(sel, w, at, s2, got, b2, frames, 'message')
                    t = Item(s2, (), None, it.calls + 1)
                    t.limit = it.limit
                    if r == 'ok':
                        out.append(t)
                continue
            # incomplete: goes on, unless the collected fragments exceed the message limit
            if not last or how == 'pause':
                tot = total(b2, ds)
                if tot is None:
                    if s2.prove(le(ds.seg[3], MANY)) is True:
                        sel('limit').ok('receive/count')
                    else:
                        s3 = s2.copy()
                        if s3.assume(('le', sub(MANY, ds.seg[3]))) and not s3.infeasible():
                            sel('limit').fail('receive/count', 'unbounded-count', at, 'more than %d fragments are collected for one message' % MANY, s3)
                        else:
                            sel('limit').undecided('receive/count', at, 'the number of fragments collected for one message is not bounded')
                    todo.append((s2, b2, i + 1))
                    continue
                for s3, (over,) in ctx.cases(s2, lt(it.limit, tot)):
                    if over:
                        sel('limit').refute('receive/limit', 'collects-beyond-limit', at, 'fragments beyond the message limit are collected further', s3)
                    else:
                        sel('limit').ok('receive/limit')
                        todo.append((s3, b2, i + 1))
            else:
                todo.append((s2, b2, i + 1))
    return out


def total(buf, ds):
    t = 0
    for i in buf:
        if i == 'B':
            return None
        t = add(t, seqlen(ds[i]['payload']))
    return t


def deliver(sel, w, at, s, got, want, frames, what):
    ws = seqnorm(tuple(frames.seg if i == 'B' else ('1', frames[i]) for i in want))
    if s.nf(got) == s.nf(ws) or same_frames(s, got, ws):
        sel('order').ok('receive/' + what)
        return
    ids = ['B' if g == frames_seg(frames) else frames.index(g[1]) if g[0] == '1' and g[1] in frames else '?' for g in got]
    if '?' not in ids:
        sel('order').refute('receive/' + what, what, at, 'frames %s were received for this %s and %s are delivered' % (list(want), what, ids), s)
        return
    sel('order').equal('receive/' + what, what, at, 'the frames delivered are not those received for this ' + what, empty_sums(s), got, ws, w)


def empty_sums(s):
    """the members of s whose collected frames are all empty, where s only knows that a sum was taken over them; s when there is none"""
    accs = set()

    def walk(v):
        if not isinstance(v, tuple):
            return
        if len(v) == 4 and v[0] == 'a' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'hvl':
            k = v[1][1][1] if isinstance(v[1][1], tuple) and len(v[1][1]) == 2 else ()
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'n' and k[2] == 'acc' and any(contains(x, ('consume', k[1], 'sum')) for x in s.sub):
                accs.add(v)
            return
        for x in v:
            walk(x)
    for F in s.facts:
        walk(F)
    for a in s.iv:
        walk(a)
    t = s.copy()
    if not accs or not all(t.assume(('eq', ('L', 0, ((a, 1),)))) for a in accs) or t.infeasible():
        return s
    return t


def frames_seg(frames):
    return getattr(frames, 'seg', None)


def same_frames(s, a, b):
    return restrict(s.nf(a), s.dom) == restrict(s.nf(b), s.dom)
