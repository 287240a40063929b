"""Models of the HTTP and networking libraries (hyper, url, tokio, native_tls, futures)."""
from .terms import *
from .spec import fmap
from .state import *
from .models import *
from .models import tm, pm, ret, unit, runsplit, UNIT

# ---------------------------------------------------------------------- hyper::buffer::BufReader {inner, buf, pos, cap}

BR = 'hyper::buffer::BufReader::'


def brd(c, name):
    return BR + name


@pm(BR + 'get_ref', BR + 'get_mut')
def m_br_get(c):
    p = c.args[0]
    return ret(c.st, ('p', p[1], p[2] + (0,), None))


@pm(BR + 'from_parts')
def m_br_from(c):
    return ret(c.st, ('st', c.dty, tuple(c.args)))


@pm(BR + 'new', BR + 'with_capacity')
def m_br_new(c):
    n = c.args[1] if len(c.args) > 1 else 4096
    z = ('vec', c.ip.tu8, (('m', 0, n),))
    return ret(c.st, ('st', c.dty, (c.args[0], z, 0, 0)))


@pm(BR + 'into_parts')
def m_br_parts(c):
    v = c.ip.expand(c.args[0])
    return ret(c.st, ('st', c.dty, tuple(v[2])))


@pm(BR + 'into_inner')
def m_br_inner(c):
    return ret(c.st, c.ip.expand(c.args[0])[2][0])


@pm(BR + 'take_buf')
def m_br_take(c):
    p = c.args[0]
    v = c.ip.expand(c.read(p))
    inner, buf, pos, cap = v[2]
    c.write(p, ('st', v[1], (inner, ('vec', c.ip.tu8, ()), 0, 0)))
    return ret(c.st, ('st', c.dty, (buf, pos, cap)))


@pm(BR + 'get_buf')
def m_br_buf(c):
    p = c.args[0]
    v = c.ip.expand(c.read(p))
    inner, buf, pos, cap = v[2]
    n = sub(cap, pos)
    if c.st.truth(mk_le(sub(1, n))):
        return ret(c.st, ('p', p[1], p[2] + (1,), ('len', pos, n)))
    return ret(c.st, ('p', ('c', ('vec', c.ip.tu8, ())), (), ('len', 0, 0)))


# ---------------------------------------------------------------------- hyper::header::Headers
#
# ('hd', type, base, ops): base None (empty) or the name of the unknown initial headers, ops in order:
#   ('set', T, value)  ('rm', T, None)  ('ext', headers)
# T is the type of the typed header. Present but unparsable headers of an unknown base are the atom ('hraw', base, T).

HS = 'hyper::header::Headers::'


def hd(v):
    if v[0] == 'sy':
        n = v[2]
        while isinstance(n, tuple) and len(n) == 2 and n[0] == 'clone':
            n = n[1]
        return ('hd', v[1], n, ())
    if v[0] != 'hd':
        raise Unsupported('headers')
    return v


def option_ty(ip, t):
    """Option<t> as an enum whose payload is t itself"""
    for i, x in enumerate(ip.w.types):
        if x['k'] == 'adt' and x['path'] == 'core::option::Option' and x['args'] and x['args'][0] == t:
            return i
    return None


def hdisc(base, t):
    return ('f', ('disc', ('hget', base, t)), 2)


def hsym(ip, st, base, t):
    """the typed header of unknown headers: None or a value; splits"""
    fix = getattr(ip, 'hfix', {})
    if (base, t) in fix:
        return fix[(base, t)]
    if t in fix:
        return fix[t]
    f = hdisc(base, t)
    m = st.dom.get(f, 3)
    if m == 3:
        st.split_atom(f)
    if m == 1:
        return None
    return ip.sym(t, ('hget', base, t, 'v'))


def hraw(base, t):
    return boolf(('hraw', base, t))


def hget(ip, st, v, t):
    """(value or None, index of the op that holds it, present but unparsable)"""
    v = hd(v)
    for i in range(len(v[3]) - 1, -1, -1):
        o = v[3][i]
        if o[0] == 'set' and o[1] == t:
            return o[2], i, False
        if o[0] == 'rm' and o[1] == t:
            return None, None, False
        if o[0] == 'ext':
            x, _, raw = hget(ip, st, o[1], t)
            if x is not None:
                return x, None, False
            if raw:
                return None, None, True
    if v[2] is None:
        return None, None, False
    x = hsym(ip, st, v[2], t)
    if x is not None:
        return x, None, False
    return None, None, st.truth(hraw(v[2], t))


def hset(v, t, x):
    v = hd(v)
    return ('hd', v[1], v[2], tuple(o for o in v[3] if not (o[0] in ('set', 'rm') and o[1] == t)) + (('set', t, x),))


def hdel(v, t):
    v = hd(v)
    return ('hd', v[1], v[2], tuple(o for o in v[3] if not (o[0] in ('set', 'rm') and o[1] == t)) + (('rm', t, None),))


def hext(v, x):
    v = hd(v)
    return ('hd', v[1], v[2], v[3] + (('ext', hd(x)),))


def hnew(ip):
    for i, x in enumerate(ip.w.types):
        if x['k'] == 'adt' and x['path'] == 'hyper::header::Headers':
            return ('hd', i, None, ())
    raise Unsupported('type Headers')


def hlayers(v, t):
    """where header t (None: all the others) comes from, from the top"""
    v = hd(v)
    out = []
    for o in reversed(v[3]):
        if o[0] == 'set' and o[1] == t:
            return out + [('set', o[2])]
        if o[0] == 'rm' and o[1] == t:
            return out + [('none',)]
        if o[0] == 'ext':
            l = hlayers(o[1], t)
            if l[-1][0] in ('set',) and True:
                return out + l
            out += [x for x in l if x[0] == 'base']
    out.append(('base', v[2]) if v[2] is not None else ('none',))
    return out


def htypes(v):
    v = hd(v)
    r = set()
    for o in v[3]:
        if o[0] == 'ext':
            r |= htypes(o[1])
        else:
            r.add(o[1])
    return r


def hdiff(v, w):
    """[(header type or None, layers of v, layers of w)] for what may differ, compared without values of 'set'"""
    out = []
    for t in sorted(htypes(v) | htypes(w)) + [None]:
        a, b = hlayers(v, t), hlayers(w, t)
        if a != b:
            out.append((t, a, b))
    return out


def gty(c):
    t = [x for x in c.targs() if isinstance(x, int)]
    if not t:
        raise Unsupported('header type')
    return t[0]


@pm(HS + 'new')
def m_hnew(c):
    return ret(c.st, ('hd', c.dty, None, ()))


@pm(HS + 'get')
def m_hget(c):
    x, i, _ = hget(c.ip, c.st, c.read(c.args[0]), gty(c))
    if x is None:
        return ret(c.st, c.none())
    p = c.args[0]
    if i is not None:
        return ret(c.st, c.some(('p', p[1], p[2] + (('h', i),), None)))
    return ret(c.st, c.some(('p', c.ip.alloc(c.st, x), (), None)))


@pm(HS + 'get_mut')
def m_hgetmut(c):
    p = c.args[0]
    t = gty(c)
    v = c.read(p)
    x, i, _ = hget(c.ip, c.st, v, t)
    if x is None:
        return ret(c.st, c.none())
    v = hset(v, t, x)
    c.write(p, v)
    return ret(c.st, c.some(('p', p[1], p[2] + (('h', len(v[3]) - 1),), None)))


@pm(HS + 'has')
def m_hhas(c):
    x, _, raw = hget(c.ip, c.st, c.read(c.args[0]), gty(c))
    return ret(c.st, 1 if x is not None or raw else 0)


NAMES = {'WebSocketKey': b'sec-websocket-key', 'WebSocketAccept': b'sec-websocket-accept', 'WebSocketProtocol': b'sec-websocket-protocol',
         'WebSocketExtensions': b'sec-websocket-extensions', 'WebSocketVersion': b'sec-websocket-version', 'Origin': b'origin',
         'Upgrade': b'upgrade', 'Connection': b'connection', 'Host': b'host', 'Authorization': b'authorization', 'Location': b'location',
         'ContentLength': b'content-length', 'TransferEncoding': b'transfer-encoding', 'UserAgent': b'user-agent'}


def named_header(c, name):
    """the type of the header with this name"""
    n = flat(text_of(c, name))
    if n is not None:
        for i, x in enumerate(c.ip.w.types):
            if x['k'] == 'adt' and NAMES.get(x['path'].split('::')[-1]) == n.lower() and ('header' in x['path']) and '_base' not in x['path'].split('::')[0]:
                return i
    raise Unsupported('header name')


@pm(HS + 'get_raw')
def m_hgetraw(c):
    """there when the header is, typed or not; what it contains is not related to the typed value"""
    x, _, raw = hget(c.ip, c.st, c.read(c.args[0]), named_header(c, c.args[1]))
    if x is None and not raw:
        return ret(c.st, c.none())
    return ret(c.st, c.some(c.ip.sym(c.fieldty(c.dty, 1, 0), ('foreign', 'get_raw', c.st.fresh()))))


@pm(HS + 'remove_raw')
def m_hrmraw(c):
    c.write(c.args[0], hdel(c.read(c.args[0]), named_header(c, c.args[1])))
    return ret(c.st, unit(c))


@pm('hyper::method::Method::safe', 'hyper::method::Method::idempotent')
def m_method(c):
    v = c.args[0]
    while v[0] == 'p':
        t, v = v, c.read(v)
    names = ('Get', 'Head', 'Options', 'Trace') + (('Put', 'Delete') if c.callee['name'] == 'idempotent' else ())
    vs = c.ip.w.types[v[1]]['variants']
    d = c.ip.discr(c.st, v)
    ok = {y[1] for y in vs if y[0] in names}
    return ret(c.st, fmap(d, lambda n: int(n in ok)))


@pm(HS + 'set')
def m_hset(c):
    p = c.args[0]
    c.write(p, hset(c.read(p), gty(c), c.args[1]))
    return ret(c.st, unit(c))


@pm(HS + 'remove')
def m_hrm(c):
    p = c.args[0]
    t = gty(c)
    x, _, raw = hget(c.ip, c.st, c.read(p), t)
    c.write(p, hdel(c.read(p), t))
    return ret(c.st, 1 if x is not None or raw else 0)


@pm(HS + 'clear')
def m_hclear(c):
    p = c.args[0]
    c.write(p, ('hd', hd(c.read(p))[1], None, ()))
    return ret(c.st, unit(c))


@pm(HS + 'iter')
def m_hiter(c):
    return ret(c.st, ('ob', 'hitems', hd(c.read(c.args[0]))))


@pm('<hyper::header::Headers as core::clone::Clone>::clone')
def m_hclone(c):
    return ret(c.st, hd(c.read(c.args[0])))


@pm("<hyper::header::Headers as core::iter::traits::collect::Extend<hyper::header::HeaderView<'a>>>::extend", '<hyper::header::Headers as core::iter::traits::collect::Extend<hyper::header::HeaderView>>::extend')
def m_hextend(c):
    p, x = c.args
    if not (isinstance(x, tuple) and x[:2] == ('ob', 'hitems')):
        raise Unsupported('extending headers from another iterator')
    c.write(p, hext(c.read(p), x[2]))
    return ret(c.st, unit(c))


@pm(*['<hyper::header::common::%s::%s as core::ops::deref::%s>::%s' % (m, n, t, f) for m, n in (('connection', 'Connection'), ('upgrade', 'Upgrade')) for t, f in (('Deref', 'deref'), ('DerefMut', 'deref_mut'))])
def m_hlist(c):
    p = c.args[0]
    return ret(c.st, ('p', p[1], p[2] + (0,), None))


@pm('hyper::header::common::upgrade::Protocol::new')
def m_protocol(c):
    return ret(c.st, ('st', c.dty, tuple(c.args)))


# ---------------------------------------------------------------------- equality of header tokens

def text_of(c, v):
    """segments of a str, String or UniCase value"""
    while True:
        if v[0] == 'p':
            if v[3] and v[3][0] == 'len':
                return c.ip.seq_of(c.st, v)[0]
            v = c.read(v)
        elif v[0] == 'vec':
            return v[2]
        elif v[0] in ('st', 'sy'):
            v = c.ip.expand(v)[2][0]
        else:
            raise Unsupported('text')


def flat(segs):
    segs = seqnorm(segs)
    if all(g[0] == 'k' or g[0] == '1' and isinstance(g[1], int) for g in segs):
        return b''.join(g[1] if g[0] == 'k' else bytes([g[1]]) for g in segs)
    return None


def ci_eq(a, b):
    """condition: two texts equal ignoring ASCII case"""
    x, y = flat(a), flat(b)
    if x is not None and y is not None:
        return 1 if x.lower() == y.lower() else 0
    if seqnorm(a) == seqnorm(b):
        return 1
    if x is None and y is None:
        k = sorted([seqnorm(a), seqnorm(b)], key=repr)
        return boolf(('ci', k[0], k[1]))
    return boolf(('ci', seqnorm(b if x is not None else a), (x if x is not None else y).lower()))


@pm('<unicase::UniCase as core::cmp::PartialEq>::eq', '<unicase::UniCase<S1> as core::cmp::PartialEq<S2>>::eq',
    '<unicase::UniCase<S> as core::cmp::PartialEq<S>>::eq')
def m_ci(c):
    r = ci_eq(text_of(c, c.args[0]), text_of(c, c.args[1]))
    return ret(c.st, r)


@pm('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def m_ci2(c):
    return ret(c.st, ci_eq(text_of(c, c.args[0]), text_of(c, c.args[1])))


@pm('<unicase::UniCase<S> as core::ops::deref::Deref>::deref', '<unicase::UniCase<S> as core::ops::deref::DerefMut>::deref_mut')
def m_cideref(c):
    p = c.args[0]
    return ret(c.st, ('p', p[1], p[2] + (0,), None))


# ---------------------------------------------------------------------- heads: parsed by hyper

@pm('hyper::http::h1::parse_request', 'hyper::http::h1::parse_response')
def m_parse(c):
    """the result is unknown; the reader has bytes buffered and consumed up to an unknown position"""
    p = c.args[0]
    v = c.ip.expand(c.read(p))
    n = sum(1 for e in c.st.ev if e[0] == 'x')
    nm = ('x', n, c.callee['name'])
    ln = anon((nm, 'buflen'), 0, 1 << 40)
    cap = anon((nm, 'cap'), 0, 1 << 40)
    pos = anon((nm, 'pos'), 0, 1 << 40)
    for q in (mk_le(sub(pos, cap)), mk_le(sub(cap, ln))):
        for x in c.st.alts(q)[0]:
            c.st.assume(x)
    buf = ('vec', c.ip.tu8, (('s', (nm, 'buf'), 0, ln),))
    before = tuple(v[2])
    c.write(p, ('st', v[1], (v[2][0], buf, pos, cap)))
    r = c.ip.sym(c.dty, nm)
    if getattr(c.ip, 'mute', False):
        # only what happens up to here is of interest
        r = c.err(c.ip.sym(c.ip.field_types(c.dty, 1)[0], nm))
    c.st.ev = c.st.ev + (('x', c.callee['name'], (('at', p[1], p[2]), before, (v[2][0], buf, pos, cap), input_of(c, v[2][0])), r),)
    return ret(c.st, r)


def input_of(c, inner):
    """content of the slice the reader reads from (None: a stream)"""
    if isinstance(inner, tuple) and inner[0] == 'p' and inner[3] is not None:
        try:
            return c.ip.seq_of(c.st, inner)[0]
        except Unsupported:
            return None
    return None


@pm('hyper::http::h1::HttpReader::into_inner')
def m_hr(c):
    v = c.args[0]
    if v[0] == 'sy':
        return ret(c.st, c.ip.sym(c.dty, (v[2], 'inner')))
    return ret(c.st, v[3][0])


@pm('hyper::server::request::Request::deconstruct')
def m_decon(c):
    v = c.ip.expand(c.args[0])
    return ret(c.st, ('st', c.dty, tuple(v[2])))


# ---------------------------------------------------------------------- tokio_codec::Framed
#
# ('ob', 'framed', type, io, codec, read buffer, write buffer)

FM = 'tokio_io::_tokio_codec::framed::'


def typ(ip, path, *args):
    for i, x in enumerate(ip.w.types):
        if x['k'] == 'adt' and x['path'] == path and (not args or tuple(a for a in x['args'] if isinstance(a, int)) == args):
            return i
    return None


def newbm(ip):
    return ('bm', ip.tu8, (), anon(('rem', 'new')))


@pm(FM + 'FramedParts::new')
def m_fpnew(c):
    return ret(c.st, ('st', c.dty, (c.args[0], c.args[1], newbm(c.ip), newbm(c.ip), ('st', None, ()))))


@pm(FM + 'Framed::from_parts')
def m_ffrom(c):
    v = c.ip.expand(c.args[0])
    return ret(c.st, ('ob', 'framed', c.dty) + tuple(v[2][:4]))


@pm(FM + 'Framed::into_parts')
def m_finto(c):
    v = framed(c.ip, c.args[0])
    return ret(c.st, ('st', c.dty, tuple(v[3:7]) + (('st', None, ()),)))


@pm(FM + 'Framed::new')
@tm('Decoder::framed')
def m_fnew(c):
    if c.callee['name'] == 'framed':
        codec, io = c.args
    else:
        io, codec = c.args
    return ret(c.st, ('ob', 'framed', c.dty, io, codec, newbm(c.ip), newbm(c.ip)))


@pm(FM + 'Framed::into_inner')
def m_finner(c):
    return ret(c.st, framed(c.ip, c.args[0])[3])


def framed(ip, v):
    if v[:2] == ('ob', 'framed'):
        return v
    if v[0] == 'sy':
        x = ip.w.types[v[1]]
        a = [t for t in x['args'] if isinstance(t, int)]
        io, codec = ip.sym(a[0], (v[2], 'io')), ip.sym(a[1], (v[2], 'codec'))
        bmt = typ(ip, 'bytes::bytes::BytesMut')
        return ('ob', 'framed', v[1], io, codec, ip.sym(bmt, (v[2], 'rbuf')), ip.sym(bmt, (v[2], 'wbuf')))
    raise Unsupported('framed stream')


# ---------------------------------------------------------------------- futures 0.1: values are computations, run on demand
#
# ('ob', 'fut', node)   ('ob', 'strm', node)

def fut(*node):
    return ('ob', 'fut', node)


def is_fut(v):
    return isinstance(v, tuple) and v[:2] == ('ob', 'fut')


@tm('Future::map', 'Future::map_err', 'Future::and_then', 'Future::then', 'Future::or_else')
def m_fmap(c):
    return ret(c.st, fut(c.callee['name'], c.args[0], c.args[1]))


@tm('Future::from_err', 'Future::fuse')
def m_fid(c):
    if c.callee['name'] == 'from_err':
        raise Unsupported('from_err')
    return ret(c.st, c.args[0])


@tm('IntoFuture::into_future')
def m_intofut(c):
    return ret(c.st, fut('into', c.args[0]))


@pm('futures::future::result_::ok', 'futures::future::result_::err', 'futures::future::result_::result', 'futures::future::result_::done',
    'futures::future::ok', 'futures::future::err', 'futures::future::result')
def m_fok(c):
    n = c.callee['name']
    if n in ('result', 'done'):
        return ret(c.st, fut('into', c.args[0]))
    return ret(c.st, fut('ready', n, c.args[0]))


@pm('futures::future::lazy::lazy')
def m_flazy(c):
    return ret(c.st, fut('lazy', c.args[0]))


@tm('Sink::send')
def m_send(c):
    return ret(c.st, fut('send', c.args[0], c.args[1]))


@pm('futures::stream::Stream::into_future')
def m_strnext(c):
    return ret(c.st, fut('next', c.args[0]))


@tm('Stream::map', 'Stream::map_err', 'Stream::and_then', 'Stream::then', 'Stream::or_else', 'Stream::filter_map', 'Stream::filter',
    'Stream::buffer_unordered', 'Stream::buffered', 'Stream::for_each', 'Stream::take', 'Stream::skip', 'Stream::inspect')
def m_strop(c):
    return ret(c.st, ('ob', 'strm', (c.callee['name'],) + tuple(c.args)))


def outer(ip, st, v):
    """the future (stream) behind boxes"""
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'p' and n < 4:
        v = ip.read(st, v[1], v[2])
        n += 1
    return v


def impl_ret(ip, trait, method, ty):
    """return type of the implementation of trait::method for ty"""
    f = find_impl(ip, trait, method, ty)
    if f is None:
        raise Unsupported('%s of %s' % (trait, ip.w.ts(ty)[:60]))
    return f['locals'][0]


def tytuple(ip, ts):
    for i, x in enumerate(ip.w.types):
        if x['k'] == 'tuple' and tuple(x['f']) == tuple(ts):
            return i
    return None


def codec_ty(ip, fr):
    return [t for t in ip.w.types[fr[2]]['args'] if isinstance(t, int)][1]


def run_future(ip, st, depth, v):
    """[('ret', state, ('ok'|'err', value)) | ('panic', ..) | ('unk', ..)]"""
    v = outer(ip, st, v)
    if not is_fut(v):
        if isinstance(v, tuple) and v[0] in ('en', 'sy') and ip.w.types[v[1]].get('path') == 'core::result::Result':
            return runsplit(st, lambda s: settle(ip, s, v))
        raise Unsupported('future %s' % (str(v)[:60],))
    n = v[2]
    k = n[0]
    if k == 'ready':
        return [('ret', st, (n[1], n[2]))]
    if k == 'into':
        return run_future(ip, st, depth, n[1])
    if k == 'lazy':
        return chain(ip.call_value(st, depth + 1, n[1], []), lambda s, x: run_future(ip, s, depth, x))
    if k in ('map', 'map_err', 'and_then', 'or_else', 'then'):
        def step(s, o):
            tag, x = o
            if k == 'map' and tag == 'ok' or k == 'map_err' and tag == 'err':
                return chain(ip.call_value(s, depth + 1, n[2], [x]), lambda s2, y: [('ret', s2, (tag, y))])
            if k == 'and_then' and tag == 'ok' or k == 'or_else' and tag == 'err':
                return chain(ip.call_value(s, depth + 1, n[2], [x]), lambda s2, y: run_future(ip, s2, depth, y))
            if k == 'then':
                raise Unsupported('Future::then')
            return [('ret', s, o)]
        return chain(run_future(ip, st, depth, n[1]), step)
    i = sum(1 for e in st.ev if e[0] == 'x')
    nm = ('x', i, k)
    if k == 'send':
        fr = framed(ip, n[1])
        et = ip.w.types[impl_ret(ip, 'Encoder', 'encode', codec_ty(ip, fr))]['args'][1]
        a, b = st.copy(), st
        a.nsplit += 1
        f2 = fr[:6] + (newbm(ip),)
        a.ev = a.ev + (('x', 'send', (fr, n[2]), 'ok'),)
        e = ip.sym(et, (nm, 'e'))
        b.ev = b.ev + (('x', 'send', (fr, n[2]), 'err'),)
        return [('ret', a, ('ok', f2)), ('ret', b, ('err', e))]
    if k == 'next':
        fr = framed(ip, n[1])
        rt = impl_ret(ip, 'Decoder', 'decode', codec_ty(ip, fr))
        ot, et = ip.w.types[rt]['args'][:2]
        it = ip.w.types[ot]['args'][0]
        bmt = typ(ip, 'bytes::bytes::BytesMut')
        f2 = fr[:5] + (ip.sym(bmt, (nm, 'rbuf')), fr[6])
        out = []
        for tag in ('item', 'end', 'err') if not getattr(ip, 'mute', False) else ('err',):
            s = st.copy()
            s.nsplit += 1
            if tag == 'err':
                x = ip.sym(et, (nm, 'e'))
                r = ('err', ('st', tytuple(ip, (et, fr[2])), (x, f2)))
            else:
                x = ip.sym(it, (nm, 'item')) if tag == 'item' else None
                o = ('en', ot, 1, (x,)) if tag == 'item' else ('en', ot, 0, ())
                r = ('ok', ('st', tytuple(ip, (ot, fr[2])), (o, f2)))
            s.ev = s.ev + (('x', 'next', (fr, f2), (tag, x)),)
            out.append(('ret', s, r))
        return out
    if k == 'op':
        # an operation of another library: ('op', name, args, item type, error type)
        out = []
        for tag, t in (('ok', n[3]), ('err', n[4])):
            s = st.copy()
            s.nsplit += 1
            x = ip.sym(t, (nm, n[1], tag))
            s.ev = s.ev + (('x', n[1], n[2], (tag, x)),)
            out.append(('ret', s, (tag, x)))
        return out
    raise Unsupported('future ' + k)


def drive(ip, st, v, conc=False):
    """one item through a stream: outcomes ('ret', state, ('ok'|'err', value)). Marks what runs while the stream waits
    (('x', 'phase', 'serial')) and what runs concurrently with the other items (('x', 'phase', ('concurrent', limit, ordered)))"""
    v = outer(ip, st, v)
    if not (isinstance(v, tuple) and v[:2] == ('ob', 'strm')):
        raise Unsupported('stream %s' % (str(v)[:60],))
    n = v[2]
    k = n[0]

    def mark(s, ph):
        s.ev = s.ev + (('x', 'phase', ph, None),)

    if k == 'source':
        out = []
        i = sum(1 for e in st.ev if e[0] == 'x')
        for tag, t in (('ok', n[3]), ('err', n[4])):
            s = st.copy()
            s.nsplit += 1
            x = ip.sym(t, ('x', i, n[1], tag))
            s.ev = s.ev + (('x', n[1], (n[2],), (tag, x)),)
            out.append(('ret', s, (tag, x)))
        return out
    if k in ('map', 'map_err', 'and_then', 'or_else', 'then', 'inspect'):
        def step(s, o):
            tag, x = o
            if k == 'map' and tag == 'ok' or k == 'map_err' and tag == 'err':
                return chain(ip.call_value(s, 1, n[2], [x]), lambda s2, y: [('ret', s2, (tag, y))])
            if k == 'and_then' and tag == 'ok' or k == 'or_else' and tag == 'err':
                def go(s2, y):
                    mark(s2, 'serial')
                    return run_future(ip, s2, 1, y)
                return chain(ip.call_value(s, 1, n[2], [x]), go)
            if k in ('then', 'inspect'):
                raise Unsupported('Stream::' + k)
            return [('ret', s, o)]
        return chain(drive(ip, st, n[1]), step)
    if k in ('buffer_unordered', 'buffered'):
        def go(s, o):
            tag, x = o
            if tag == 'err':
                return [('ret', s, o)]
            mark(s, ('concurrent', n[2], k == 'buffered'))
            return run_future(ip, s, 1, x)
        return chain(drive(ip, st, n[1]), go)
    raise Unsupported('stream operation ' + k)


def settle(ip, s, v):
    vi = ip.variant_of(s, v)
    return [('ret', s, ('ok' if vi == 0 else 'err', ip.enum_fields(s, v, vi)[0]))]


def chain(outs, f):
    res = []
    for o in outs:
        if o[0] == 'ret':
            val = o[2]
            res.extend(runsplit(o[1], lambda s: f(s, val)))
        else:
            res.append(o)
    return res


def op(name, item, error, refs=True):
    """model of a call that returns a future of another library; item and error are type paths"""
    def m(c):
        it, et = typ(c.ip, item) if isinstance(item, str) else item(c), typ(c.ip, error)
        if it is None or et is None:
            raise Unsupported('types of ' + name)
        args = []
        for a in c.args:
            if isinstance(a, tuple) and a and a[0] == 'p':
                v = c.read(a) if not (a[3] and a[3][0] == 'len') else ('vec', c.ip.tu8, c.ip.seq_of(c.st, a)[0])
                args.append(v)
            else:
                args.append(a)
        return ret(c.st, fut('op', name, tuple(args), it, et))
    return m


def value_args(c):
    """arguments with references replaced by what they point to now"""
    out = []
    for a in c.args:
        n = 0
        while isinstance(a, tuple) and a and a[0] == 'p' and n < 4:
            if a[3] and a[3][0] == 'len':
                a = ('vec', c.ip.tu8, c.ip.seq_of(c.st, a)[0])
            else:
                a = c.read(a)
            n += 1
        out.append(a)
    return tuple(out)


def sync_op(name):
    """model of a blocking operation of another library: one event, unknown result"""
    def m(c):
        n = sum(1 for e in c.st.ev if e[0] == 'x')
        nm = ('x', n, name)
        v = value_args(c)
        r = c.ip.sym(c.dty, nm)
        c.st.ev = c.st.ev + (('x', name, v, r),)
        return ret(c.st, r)
    return m


PM['std::net::tcp::TcpListener::accept'] = sync_op('listener-accept')
PM['std::net::tcp::TcpStream::connect'] = sync_op('tcp-connect')
PM['native_tls::TlsAcceptor::accept'] = sync_op('tls-accept')
PM['native_tls::TlsConnector::connect'] = sync_op('tls-connect')
TM['Splittable::split'] = sync_op('stream-split')


@pm('tokio_tcp::listener::TcpListener::incoming')
def m_listen(c):
    it = typ(c.ip, 'tokio_tcp::stream::TcpStream')
    et = typ(c.ip, 'core::io::error::Error') or typ(c.ip, 'std::io::error::Error')
    return ret(c.st, ('ob', 'strm', ('source', 'incoming', c.args[0], it, et)))


@pm('tokio_tcp::stream::TcpStream::peer_addr')
def m_peer(c):
    v = c.read(c.args[0])
    return ret(c.st, c.ip.sym(c.dty, ('peer', v)))


@pm('<tokio_tls::TlsAcceptor as core::convert::From<native_tls::TlsAcceptor>>::from', '<tokio_tls::TlsConnector as core::convert::From<native_tls::TlsConnector>>::from')
def m_tlsext(c):
    return ret(c.st, ('st', c.dty, tuple(c.args)))


IOE = 'core::io::error::Error'


def tls_item(c):
    """TlsStream of the stream given"""
    t = typ(c.ip, 'tokio_tls::TlsStream')
    if t is None:
        raise Unsupported('TlsStream')
    return t


PM['tokio_tcp::stream::TcpStream::connect'] = op('tcp-connect', 'tokio_tcp::stream::TcpStream', IOE)
PM['tokio_tls::TlsConnector::connect'] = op('tls-connect', tls_item, 'native_tls::Error')
PM['tokio_tls::TlsAcceptor::accept'] = op('tls-accept', tls_item, 'native_tls::Error')


# ---------------------------------------------------------------------- base64, SHA-1

def compact(segs):
    """short name of a byte sequence made of the elements of one unknown array"""
    segs = seqnorm(segs)
    if segs and all(g[0] == '1' for g in segs):
        nm = None
        for i, g in enumerate(segs):
            t = one_tab(g[1]) if not isinstance(g[1], int) else None
            if not t or g[1] != ident(t[0]) or not (isinstance(t[0][1], tuple) and len(t[0][1]) == 2 and t[0][1][1] == i):
                return segs
            if nm is None:
                nm = t[0][1][0]
            elif nm != t[0][1][0]:
                return segs
        return ('arr', nm, len(segs))
    return segs


def b64_seq(segs):
    segs = seqnorm(segs)
    n = seqlen(segs)
    nm = ('b64', compact(segs))
    B64[nm] = segs
    return (('s', nm, 0, (n + 2) // 3 * 4 if isinstance(n, int) else lenof(nm)),)


B64 = {}


def sha1_of(ip, segs):
    """20 bytes"""
    nm = ('sha1', seqnorm(segs))
    return ('vec', ip.tu8, tuple(('1', ident(('f', (nm, i), 256))) for i in range(20)))


def bytes_arg(c, v):
    while v[0] == 'p' and not (v[3] and v[3][0] == 'len'):
        v = c.read(v)
    if v[0] == 'p':
        return c.ip.seq_of(c.st, v)[0]
    if v[0] in ('vec', 'bm'):
        return v[2]
    raise Unsupported('bytes')


@pm('base64::encode::encode', 'base64::encode')
def m_b64(c):
    return ret(c.st, ('vec', c.ip.tu8, b64_seq(bytes_arg(c, c.args[0]))))


@pm('base64::decode::decode', 'base64::decode')
def m_b64d(c):
    segs = seqnorm(bytes_arg(c, c.args[0]))
    if len(segs) == 1 and segs[0][0] == 's' and segs[0][1][:1] == ('b64',) and segs[0][2] == 0 and segs[0][1] in B64:
        return ret(c.st, c.ok(('vec', c.ip.tu8, B64[segs[0][1]])))
    nm = ('b64d', segs)
    f = ('f', ('disc', nm), 2)
    m = c.st.dom.get(f, 3)
    if m == 3:
        c.st.split_atom(f)
    if m == 1:
        n2 = ('b64dec', segs)
        return ret(c.st, c.ok(('vec', c.ip.tu8, (('s', n2, 0, lenof(n2)),))))
    return ret(c.st, c.err(c.ip.sym(c.ip.w.types[c.dty]['args'][1], (nm, 'e'))))


@tm('Digest::digest')
def m_digest(c):
    return ret(c.st, sha1_of(c.ip, bytes_arg(c, c.args[0])))


@tm('Digest::new')
def m_dnew(c):
    return ret(c.st, ('ob', 'sha1', ()))


@tm('Digest::input', 'Digest::update', 'Digest::chain')
def m_dinput(c):
    p = c.args[0]
    v = p if c.callee['name'] == 'chain' else c.read(p)
    if v[:2] != ('ob', 'sha1'):
        raise Unsupported('digest')
    x = ('ob', 'sha1', v[2] + tuple(bytes_arg(c, c.args[1])))
    if c.callee['name'] == 'chain':
        return ret(c.st, x)
    c.write(p, x)
    return ret(c.st, unit(c))


@tm('Digest::result', 'Digest::finalize')
def m_dres(c):
    v = c.args[0]
    if v[:2] != ('ob', 'sha1'):
        raise Unsupported('digest')
    return ret(c.st, sha1_of(c.ip, v[2]))


OLD_INTO = TM['Into::into']


@tm('Into::into')
def m_gainto(c):
    if c.args and isinstance(c.args[0], tuple) and c.args[0][0] == 'vec' and 'generic_array' in c.path:
        return ret(c.st, c.args[0])
    return OLD_INTO(c)


@pm('generic_array::GenericArray::as_slice')
def m_gaslice(c):
    p = c.args[0]
    return ret(c.st, ('p', p[1], p[2], ('len', 0, seqlen(c.read(p)[2]))))


# ---------------------------------------------------------------------- texts of status codes and versions

STATUS = {'SwitchingProtocols': b'101 Switching Protocols', 'BadRequest': b'400 Bad Request', 'Forbidden': b'403 Forbidden', 'Ok': b'200 OK'}
VERSIONS = {'Http09': b'HTTP/0.9', 'Http10': b'HTTP/1.0', 'Http11': b'HTTP/1.1', 'Http20': b'HTTP/2.0'}
METHODS = {'Get': b'GET'}


def known_text(ip, v):
    """text of a known status code, version or method"""
    if v[0] != 'en' and not (v[0] == 'et' and isinstance(tab(v[2], v[3]), int)):
        return None
    x = ip.w.types[v[1]]
    vi = v[2] if v[0] == 'en' else tab(v[2], v[3])
    n = x['variants'][vi][0]
    p = x.get('path')
    if p == 'hyper::status::StatusCode':
        return STATUS.get(n)
    if p == 'hyper::version::HttpVersion':
        return VERSIONS.get(n)
    if p == 'hyper::method::Method':
        return METHODS.get(n)
    return None
