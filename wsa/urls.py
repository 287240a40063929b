"""What the client is made of: url::Url (1.7), status codes, TLS connectors, the Basic credentials (models of other libraries)"""
from .terms import *
from .state import *
from .interp import Unsupported
from .models import PM, TM, pm, tm, ret, is_cow, val_eq, seq_val
from .http import sync_op, op, typ, value_args

# ---------------------------------------------------------------------- url::Url
#
# a Url is an unknown value known by its name; its parts are texts named ('url', name, part).
# ip.scheme: the scheme of every Url, bytes or None (none of the schemes with a known default port)

U = 'url::Url::'
KNOWN = {b'http': 80, b'ws': 80, b'https': 443, b'wss': 443, b'ftp': 21, b'gopher': 70}


def url_of(c, v):
    n = 0
    while isinstance(v, tuple) and v and n < 6:
        n += 1
        if v[0] == 'p':
            v = c.read(v)
        elif is_cow(c, v):
            vi = c.ip.variant_of(c.st, v)
            v = c.ip.enum_fields(c.st, v, vi)[0]
        elif v[0] == 'sy':
            nm = v[2]
            while isinstance(nm, tuple) and len(nm) == 2 and nm[0] == 'clone':
                nm = nm[1]
            return nm
        else:
            break
    raise Unsupported('url')


def part(ip, u, p):
    """text of a part"""
    if p == 'scheme' and getattr(ip, 'scheme', None) is not None:
        return bytes_seq(ip.scheme)
    nm = ('url', u, p)
    return (('o', nm, lenof(nm)),)


def flag(u, p):
    return ('f', ('urlhas', u, p), 2)


def has(st, u, p):
    """has the url the optional part (splits)"""
    f = flag(u, p)
    m = st.dom.get(f, 3)
    if m == 3:
        st.split_atom(f)
    return m == 2


def port(u):
    return anon(('url', u, 'port'), 0, 65535)


def text(c, segs):
    return ('p', c.ip.alloc(c.st, ('vec', c.ip.tu8, tuple(segs))), (), ('len', 0, seqlen(segs)))


def req(ip, st, u, segs=True):
    """path and query of the url"""
    out = part(ip, u, 'path')
    if has(st, u, 'query'):
        out = out + bytes_seq(b'?') + part(ip, u, 'query')
    return out


@pm(U + 'host_str', U + 'domain', U + 'password', U + 'query', U + 'fragment')
def m_opt(c):
    u = url_of(c, c.args[0])
    n = c.callee['name']
    if n == 'domain' and (not has(c.st, u, 'host') or not has(c.st, u, 'named')):
        # an address is no domain
        return ret(c.st, c.none())
    k = {'host_str': 'host', 'domain': 'host'}.get(n, n)
    if not has(c.st, u, k):
        return ret(c.st, c.none())
    return ret(c.st, c.some(text(c, part(c.ip, u, k))))


@pm(U + 'host')
def m_host(c):
    u = url_of(c, c.args[0])
    if not has(c.st, u, 'host'):
        return ret(c.st, c.none())
    return ret(c.st, c.some(('sy', c.targ_of(c.dty) if hasattr(c, 'targ_of') else c.ip.w.types[c.dty]['args'][0], ('url', u, 'hostv'))))


@pm(U + 'has_host')
def m_hashost(c):
    return ret(c.st, 1 if has(c.st, url_of(c, c.args[0]), 'host') else 0)


@pm(U + 'scheme', U + 'username', U + 'path', U + 'as_str')
def m_text(c):
    return ret(c.st, text(c, part(c.ip, url_of(c, c.args[0]), c.callee['name'])))


@pm(U + 'port')
def m_port(c):
    u = url_of(c, c.args[0])
    return ret(c.st, c.some(port(u)) if has(c.st, u, 'port') else c.none())


def default_port(ip):
    s = getattr(ip, 'scheme', None)
    return KNOWN.get(s)


@pm(U + 'port_or_known_default')
def m_portdef(c):
    u = url_of(c, c.args[0])
    if has(c.st, u, 'port'):
        return ret(c.st, c.some(port(u)))
    d = default_port(c.ip)
    return ret(c.st, c.none() if d is None else c.some(d))


def hostport(c, t, u, n):
    hv = c.ip.field_types(t)[0]
    return ('st', t, (('sy', hv, ('url', u, 'hostv')), n))


@pm(U + 'with_default_port')
def m_wdp(c):
    u = url_of(c, c.args[0])
    rt = c.ip.w.types[c.dty]['args'][0]
    if not has(c.st, u, 'host'):
        return ret(c.st, c.err(c.ip.sym(c.ip.w.types[c.dty]['args'][1], ('urlerr', u, 'host'))))
    if has(c.st, u, 'port'):
        return ret(c.st, c.ok(hostport(c, rt, u, port(u))))
    d = default_port(c.ip)
    if d is not None:
        return ret(c.st, c.ok(hostport(c, rt, u, d)))
    p = c.args[0]
    res = []
    from .models import runsplit
    for o in c.ip.call_value(c.st, c.depth + 1, c.args[1], [p]):
        if o[0] != 'ret':
            res.append(o)
            continue

        def pick(s, o=o):
            vi = c.ip.variant_of(s, o[2])
            if vi == 0:
                return [('ret', s, c.ok(hostport(c, rt, u, c.ip.enum_fields(s, o[2], 0)[0])))]
            return [('ret', s, c.err(c.ip.sym(c.ip.w.types[c.dty]['args'][1], ('urlerr', u, 'port'))))]
        res.extend(runsplit(o[1], pick))
    return res


@pm('<url::Url as core::clone::Clone>::clone')
def m_uclone(c):
    return ret(c.st, c.read(c.args[0]))


@pm(U + 'parse')
def m_uparse(c):
    p = c.args[0]
    segs = c.ip.seq_of(c.st, p)[0]
    return ret(c.st, c.ip.sym(c.dty, ('urlparse', seqnorm(segs))))


POS = ('BeforeScheme', 'AfterScheme', 'BeforeUsername', 'AfterUsername', 'BeforePassword', 'AfterPassword', 'BeforeHost', 'AfterHost',
       'BeforePort', 'AfterPort', 'BeforePath', 'AfterPath', 'BeforeQuery', 'AfterQuery', 'BeforeFragment', 'AfterFragment')


def url_index(c):
    u = url_of(c, c.args[0])
    r = c.ip.expand(c.args[1])
    rp = c.ip.w.types[r[1]].get('path', '')
    names = [n for n, _ in c.ip.w.types[r[1]]['variants'][0][2]]
    f = dict(zip(names, r[2]))

    def pos(v):
        vi = c.ip.variant_of(c.st, v)
        return POS.index(c.ip.w.types[v[1]]['variants'][vi][0])
    a = pos(f['start']) if 'start' in f else 0
    b = pos(f['end']) if 'end' in f else len(POS) - 1
    if rp.endswith('RangeInclusive'):
        raise Unsupported('url range')
    if a > b:
        raise Unsupported('url range')
    out = ()
    st, ip = c.st, c.ip
    if a < POS.index('BeforePath'):
        nm = ('url', u, ('part', a, min(b, POS.index('BeforePath'))))
        out += (('o', nm, lenof(nm)),)
        a = POS.index('BeforePath')
    for i in range(a, b):
        n = POS[i]
        if n == 'BeforePath':
            out += part(ip, u, 'path')
        elif n == 'AfterPath' and has(st, u, 'query'):
            out += bytes_seq(b'?')
        elif n == 'BeforeQuery' and has(st, u, 'query'):
            out += part(ip, u, 'query')
        elif n == 'AfterQuery' and has(st, u, 'fragment'):
            out += bytes_seq(b'#')
        elif n == 'BeforeFragment' and has(st, u, 'fragment'):
            out += part(ip, u, 'fragment')
    return ret(st, text(c, seqnorm(out)))


for _r in ('Range', 'RangeTo', 'RangeFrom', 'RangeFull'):
    _a = '<core::ops::range::%s<url::slicing::Position>>' % _r if _r != 'RangeFull' else '<core::ops::range::RangeFull>'
    PM['url::slicing::<impl core::ops::index::Index%s for url::Url>::index' % _a] = url_index


@pm('alloc::borrow::Cow::into_owned')
def m_cowowned(c):
    v = c.args[0]
    if not is_cow(c, v):
        return NotImplemented
    vi = c.ip.variant_of(c.st, v)
    x = c.ip.enum_fields(c.st, v, vi)[0]
    if vi == 1:
        return ret(c.st, x)
    if x[0] == 'p' and x[3] and x[3][0] == 'len':
        segs, e = c.ip.seq_of(c.st, x)
        return ret(c.st, ('vec', e, segs))
    return ret(c.st, c.read(x))


def address(c, v):
    """(host, port) an address names, or what it is"""
    n = 0
    while v[0] == 'p' and n < 4 and not (v[3] and v[3][0] == 'len'):
        v = c.read(v)
        n += 1
    x = c.ip.w.types[v[1]] if v[0] in ('st', 'sy') and isinstance(v[1], int) else None
    if x and x['k'] == 'adt' and x['path'] == 'url::host::HostAndPort':
        h, p = c.ip.expand(v)[2]
        return ('at', h[2] if h[0] == 'sy' else h, p)
    if x and x['k'] == 'tuple' and len(v[2]) == 2:
        segs = seqnorm(seq_val(c, v[2][0])[0])
        if len(segs) == 1 and segs[0][0] == 'o' and segs[0][1][0] == 'url' and segs[0][1][2] == 'host':
            return ('at', segs[0][1][:2] + ('hostv',), v[2][1])
    return v


@tm('ToSocketAddrs::to_socket_addrs')
def m_addrs(c):
    a = address(c, c.args[0])
    x = c.ip.w.types[c.dty]
    it, et = x['args'][:2]
    nm = ('addrs', a)
    f = flag(nm, 'resolved')
    m = c.st.dom.get(f, 3)
    if m == 3:
        c.st.split_atom(f)
    if m == 1:
        return ret(c.st, c.err(c.ip.sym(et, (nm, 'e'))))
    return ret(c.st, c.ok(('ob', 'addrs', a, 0)))


def m_addrnext(c):
    p = c.args[0]
    v = c.read(p)
    if not (isinstance(v, tuple) and v[:2] == ('ob', 'addrs')):
        return NotImplemented
    f = flag(('addrs', v[2]), ('n', v[3]))
    m = c.st.dom.get(f, 3)
    if m == 3:
        c.st.split_atom(f)
    if m == 1:
        return ret(c.st, c.none())
    c.write(p, ('ob', 'addrs', v[2], v[3] + 1))
    return ret(c.st, c.some(('ob', 'addr', v[2], v[3])))


PM['<url::host::SocketAddrs as core::iter::traits::iterator::Iterator>::next'] = m_addrnext


def m_tcp(c):
    """blocking connect to whatever names an address"""
    n = sum(1 for e in c.st.ev if e[0] == 'x')
    v = c.args[0]
    while v[0] == 'p' and not (v[3] and v[3][0] == 'len'):
        v = c.read(v)
    a = (v[2],) if v[:2] == ('ob', 'addr') else (address(c, v),)
    r = c.ip.sym(c.dty, ('x', n, 'tcp-connect'))
    c.st.ev = c.st.ev + (('x', 'tcp-connect', a, r),)
    return ret(c.st, r)


PM['std::net::tcp::TcpStream::connect'] = m_tcp

# ---------------------------------------------------------------------- TLS

TB = 'native_tls::TlsConnector'


@pm(TB + '::builder')
def m_tlsb(c):
    return ret(c.st, ('ob', 'tlsbuilder', c.dty, ()))


@pm(TB + 'Builder::build')
def m_tlsbuild(c):
    v = c.args[0]
    if v[0] == 'p':
        v = c.read(v)
    return ret(c.st, c.ip.sym(c.dty, ('tls', v[3])))


@pm(TB + '::new')
def m_tlsnew(c):
    return ret(c.st, c.ip.sym(c.dty, ('tls', ())))


def m_tlsset(c):
    p = c.args[0]
    v = c.read(p)
    c.write(p, v[:3] + (v[3] + ((c.callee['name'],) + tuple(c.args[1:]),),))
    return ret(c.st, p)


for _n in ('danger_accept_invalid_certs', 'danger_accept_invalid_hostnames', 'use_sni', 'min_protocol_version', 'max_protocol_version', 'identity',
           'add_root_certificate', 'disable_built_in_roots'):
    PM[TB + 'Builder::' + _n] = m_tlsset

# ---------------------------------------------------------------------- hyper::status::StatusCode
#
# ('ob', 'status', type, number)

CODES = {100: 'Continue', 101: 'SwitchingProtocols', 102: 'Processing', 200: 'Ok', 201: 'Created', 202: 'Accepted', 203: 'NonAuthoritativeInformation',
         204: 'NoContent', 205: 'ResetContent', 206: 'PartialContent', 207: 'MultiStatus', 208: 'AlreadyReported', 226: 'ImUsed', 300: 'MultipleChoices',
         301: 'MovedPermanently', 302: 'Found', 303: 'SeeOther', 304: 'NotModified', 305: 'UseProxy', 307: 'TemporaryRedirect', 308: 'PermanentRedirect',
         400: 'BadRequest', 401: 'Unauthorized', 402: 'PaymentRequired', 403: 'Forbidden', 404: 'NotFound', 405: 'MethodNotAllowed', 406: 'NotAcceptable',
         407: 'ProxyAuthenticationRequired', 408: 'RequestTimeout', 409: 'Conflict', 410: 'Gone', 411: 'LengthRequired', 412: 'PreconditionFailed',
         413: 'PayloadTooLarge', 414: 'UriTooLong', 415: 'UnsupportedMediaType', 416: 'RangeNotSatisfiable', 417: 'ExpectationFailed', 418: 'ImATeapot',
         421: 'MisdirectedRequest', 422: 'UnprocessableEntity', 423: 'Locked', 424: 'FailedDependency', 426: 'UpgradeRequired', 428: 'PreconditionRequired',
         429: 'TooManyRequests', 431: 'RequestHeaderFieldsTooLarge', 451: 'UnavailableForLegalReasons', 500: 'InternalServerError', 501: 'NotImplemented',
         502: 'BadGateway', 503: 'ServiceUnavailable', 504: 'GatewayTimeout', 505: 'HttpVersionNotSupported', 506: 'VariantAlsoNegotiates',
         507: 'InsufficientStorage', 508: 'LoopDetected', 510: 'NotExtended', 511: 'NetworkAuthenticationRequired'}
NUM = {n: k for k, n in CODES.items()}
S = 'hyper::status::StatusCode::'


@pm(S + 'from_u16')
def m_from(c):
    return ret(c.st, ('ob', 'status', c.dty, c.args[0]))


def number(c, v):
    while v[0] == 'p':
        v = c.read(v)
    return number_of(c.ip, c.st, v)


def number_of(ip, st, v):
    if v[:2] == ('ob', 'status'):
        return v[3]
    vi = ip.variant_of(st, v)
    n = ip.w.types[v[1]]['variants'][vi][0]
    return NUM[n] if n in NUM else ip.enum_fields(st, v, vi)[0]


def status_variant(ip, st, v):
    """variant index of an ('ob', 'status'); splits"""
    n = v[3]
    vs = [x[0] for x in ip.w.types[v[2]]['variants']]
    if isinstance(n, int):
        return vs.index(CODES.get(n, 'Unregistered'))
    for k in sorted(CODES):
        if st.truth(mk_eq(sub(n, k))):
            return vs.index(CODES[k])
    return vs.index('Unregistered')


@pm('<hyper::status::StatusCode as core::cmp::PartialEq>::eq', '<hyper::status::StatusCode as core::cmp::PartialEq>::ne')
def m_steq(c):
    r = c.ip.compare(c.st, 'Eq', number(c, c.args[0]), number(c, c.args[1]))
    return ret(c.st, r if c.callee['name'] == 'eq' else c_not(r))


@pm(S + 'to_u16')
def m_tou16(c):
    return ret(c.st, number(c, c.args[0]))


CLASS = {'is_informational': 1, 'is_success': 2, 'is_redirection': 3, 'is_client_error': 4, 'is_server_error': 5}


def m_class(c):
    n = number(c, c.args[0])
    k = CLASS[c.callee['name']]
    if not c.st.truth(mk_le(sub(100 * k, n))):
        return ret(c.st, 0)
    return ret(c.st, 1 if c.st.truth(mk_le(sub(n, 100 * k + 99))) else 0)


for _n in CLASS:
    PM[S + _n] = m_class
