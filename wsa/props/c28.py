"""Builder and upgrade settings accumulate, replace and clear exactly as named"""
from ..check import *
from ..terms import *
from ..models import runsplit
from ..senders import probe
from ..http import hd, hget, hset, hdel, hext, hnew, hlayers, hdiff, htypes, typ
from ..upgrade import names, ht
from ..opaque import ident_, identical
from ..accepts import byte_segs, Dummy
from ..client import connections, sweep, PLAIN, GOOD
from .. import client

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every builder and upgrade method on a builder made by public methods from unknown headers (protocol and extension lists absent, empty, of one and two '
               'entries, unknown), unknown key, version and limits, and with arguments of every kind (lists of zero to three entries). The setting named must have exactly the value required; '
               'every other part of the result is compared with the builder made without the call. The request and limits of the asynchronous connects are compared with these settings.')
B = 'src/client/builder.rs:ClientBuilder::'
ABSENT = 'absent'


def run(ctx):
    for m in METHODS:
        ctx.guard('modelled', B + m[1], method, ctx, *m)
    for probe_, field, n in (('b_get_protocol', 'protocol', 'get_header'), ('b_get_host', 'host', 'get_header')):
        ctx.guard('modelled', B + n, getter, ctx, probe_, field)
    ctx.guard('modelled', B + 'new', fresh, ctx)
    for p, m, h, many in UPS:
        ctx.guard('modelled', 'src/server/upgrade/%s.rs:Upgrade::%s' % ('async' if p[0] == 'a' else 'sync', m), upgrade, ctx, p, m, h, many)
    for name in client.CALLS:
        if name.startswith('async'):
            for b in ('make_builder', 'cleared_builder', 'plain_builder'):
                sweep(ctx, ('req', 'limit'), name, shape=GOOD, url=PLAIN, builder=b)
    ctx.rules.append('add_* appends, clear_* removes, setters replace; every other setting equals that of the builder without the call; async connects: request and limits == settings')


# (probe, method, header touched, effect, changed arguments of the reference builder)
METHODS = [
    ('b_add_protocol', 'add_protocol', 'protocol', 'one', {}),
    ('b_add_protocols', 'add_protocols', 'protocol', 'many', {}),
    ('b_clear_protocols', 'clear_protocols', 'protocol', 'clear', {}),
    ('b_add_extension', 'add_extension', 'extensions', 'one', {}),
    ('b_add_extensions', 'add_extensions', 'extensions', 'many', {}),
    ('b_clear_extensions', 'clear_extensions', 'extensions', 'clear', {}),
    ('b_frame', 'max_dataframe_size', None, None, {4: 'arg'}),
    ('b_message', 'max_message_size', None, None, {5: 'arg'}),
    ('b_key', 'key', 'key', 'bytes', {2: 'some'}),
    ('b_clear_key', 'clear_key', 'key', 'clear', {2: 'none'}),
    ('b_version', 'version', 'version', 'value', {3: 'some'}),
    ('b_clear_version', 'clear_version', 'version', 'clear', {3: 'none'}),
    ('b_origin', 'origin', 'origin', 'text', {}),
    ('b_clear_origin', 'clear_origin', 'origin', 'clear', {}),
    ('b_custom', 'custom_headers', None, 'extend', {}),
    ('b_drop_origin', 'clear_header', 'origin', 'clear', {}),
    ('b_drop_host', 'clear_header', 'host', 'clear', {}),
]
UPS = [(a + p, m, h, many) for a in ('', 'a') for p, m, h, many in (('up_protocol', 'use_protocol', 'protocol', False), ('up_extension', 'use_extension', 'extensions', False),
                                                                      ('up_extensions', 'use_extensions', 'extensions', True))]


def headers_field(ip, v):
    """name of the field with the headers"""
    for n, x in names(None, ip, v).items():
        if isinstance(x, tuple) and x and (x[0] == 'hd' or x[0] == 'sy' and ip.w.types[x[1]].get('path') == 'hyper::header::Headers'):
            return n
    raise Unsupported('headers of the value')


def element_type(ip, v):
    return v[1] if v[0] == 'vec' else [x for x in ip.w.types[v[1]]['args'] if isinstance(x, int)][0]


def listed(ip, t, nm, n):
    """header of type t with n entries (None: absent, '?': unknown)"""
    if n is None:
        return None
    if n == '?':
        return ip.sym(t, nm)
    vt = ip.field_types(t)[0]
    et = [x for x in ip.w.types[vt]['args'] if isinstance(x, int)][0]
    return ('st', t, (('vec', et, tuple(('1', ip.sym(et, (nm, i))) for i in range(n))),))


def entries(ip, v):
    v = ip.expand(v)
    x = ip.expand(v[2][0]) if v[2][0][0] == 'sy' else v[2][0]
    return x[2]


def scenario(ctx, name, field, old):
    """(ip, state, builder, arguments of make_builder, arguments of the method) for every way to make the builder"""
    ip = ctx.interp('probe')
    mb, fn = probe(ctx, 'make_builder'), probe(ctx, name)
    st = State()
    bargs = ctx.args(ip, mb)
    hn = hd(ip.read(st, bargs[1][1], bargs[1][2]))[2]
    ip.hfix = {}
    if old is not ABSENT and field:
        t = ht(ip, field)
        ip.hfix[(hn, t)] = listed(ip, t, ('old', field), old)
    for o in ctx.run(ip, mb, bargs, st):
        if o[0] != 'ret':
            raise Unsupported('making the builder')
        args = ctx.args(ip, fn)
        yield ip, o[1], o[2], bargs, args


def method(ctx, name, m, field, effect, changed):
    at = B + m
    olds = (None, 0, 1, 2, '?') if effect in ('one', 'many') else (None, '?') if field in ('protocol', 'extensions') else (ABSENT,)
    counts = (0, 1, 2, 3) if effect == 'many' else (None,)
    n = 0
    for old in olds:
        for count in counts:
            for ip, s0, b, bargs, args in scenario(ctx, name, field, old):
                args = [b] + list(args[1:])
                if count is not None:
                    et = element_type(ip, args[1])
                    args[1] = ('vec', et, tuple(('1', ip.sym(et, ('new', i))) for i in range(count)))
                for k, s, r in ctx.run(ip, probe(ctx, name), args, s0.copy()):
                    if k == 'unk':
                        ctx.undecided('modelled', at, str(r)[:300])
                        continue
                    if k == 'panic':
                        ctx.refute('no-panic', 'panic', at, 'panics (%s at %s)' % (r[1], r[2]), s)
                        continue
                    n += 1
                    runsplit(s, lambda s1: judge(ctx, ip, at, s1, field, effect, changed, b, bargs, args, r, old))
    if not n:
        ctx.undecided('coverage', at, 'no outcome')
    ctx.samples.append('%s: %d outcomes' % (at, n))


def reference(ctx, ip, s, changed, bargs, args):
    """the builder made by the same calls with the setting replaced"""
    mb = probe(ctx, 'make_builder')
    a = list(bargs)
    for i, how in changed.items():
        if how == 'arg':
            a[i] = args[1]
        elif how == 'some':
            a[i] = ('en', bargs[i][1], 1, (args[1],))
        else:
            a[i] = ('en', bargs[i][1], 0, ())
    out = [(o[1], o[2]) for o in ip.exec_fn(mb, a, s.copy(), 0)]
    return out


def judge(ctx, ip, at, s, field, effect, changed, b, bargs, args, r, old):
    hf = headers_field(ip, r)
    before, after = names(None, ip, b), names(None, ip, r)
    refs = reference(ctx, ip, s, changed, bargs, args)
    for s2, ref in refs:
        ref = names(None, ip, ref)
        if set(ref) != set(after):
            ctx.undecided('other-settings', at, 'fields of the builder')
            return []
        for f in ref:
            if f != hf:
                identical(ctx, 'other-settings', 'setting', at, 'setting %s after the call' % f, s2, ip, after[f], ref[f])
    effect_on_headers(ctx, ip, at, s, field, effect, hd(before[hf]), hd(after[hf]), args, old)
    return []


def effect_on_headers(ctx, ip, at, s, field, effect, h0, h1, args, old):
    if effect == 'extend':
        x = hd(ip.read(s, args[1][1], args[1][2]))
        want = hext(h0, x)
        same_headers(ctx, ip, at, s, h1, want, None)
        return
    t = ht(ip, field) if field else None
    same_headers(ctx, ip, at, s, h1, h0, t)
    if t is None:
        return
    now, _, raw = hget(ip, s, h1, t)
    was, _, _ = hget(ip, s, h0, t)
    if effect == 'clear':
        if now is not None or raw:
            ctx.refute('setting', 'cleared', at, 'the setting is still there after it was cleared', s)
        else:
            ctx.ok('setting')
        return
    if effect in ('one', 'many'):
        new = (('1', args[1]),) if effect == 'one' else args[1][2]
        was_ = entries(ip, was) if was is not None else ()
        want = tuple(was_) + tuple(new)
        got = () if now is None else entries(ip, now)
        list_is(ctx, ip, at, s, got, want)
        return
    if now is None:
        ctx.refute('setting', 'set', at, 'the setting is not there after it was set', s)
        return
    if effect == 'bytes':
        ctx.equal('setting', 'value', at, 'the bytes set', s, seqnorm(byte_segs(now, ip)), seqnorm(byte_segs(args[1], ip)), ip.w)
    elif effect == 'value':
        identical(ctx, 'setting', 'value', at, 'the value set', s, ip, now, args[1])
    else:
        identical(ctx, 'setting', 'value', at, 'the text set', s, ip, ip.expand(now)[2][0], args[1])


def list_is(ctx, ip, at, s, got, want):
    """same entries in the same order"""
    got, want = seqnorm(s.nf(got)), seqnorm(s.nf(want))
    if len(got) != len(want):
        ctx.refute('setting', 'entries', at, 'the list does not consist of the old entries followed by the new ones', s)
        return
    for g, x in zip(got, want):
        if g == x:
            continue
        if g[0] == '1' and x[0] == '1':
            if ident_(ctx, ip, s, g[1], x[1]) is True:
                continue
        ctx.refute('setting', 'entries', at, 'the list does not consist of the old entries followed by the new ones', s)
        return
    ctx.ok('setting')


def same_headers(ctx, ip, at, s, got, want, but):
    for t, x, y in hdiff(got, want):
        if t is not None and t == but:
            continue
        if x and y and x[0][0] == 'set' and y[0][0] == 'set' and ident_(ctx, ip, s, x[0][1], y[0][1]) is True:
            continue
        if t is not None:
            p, q = hget(ip, s, got, t), hget(ip, s, want, t)
            if p[0] is None and q[0] is None and p[2] == q[2]:
                continue
            if p[0] is not None and q[0] is not None and ident_(ctx, ip, s, p[0], q[0]) is True:
                continue
        ctx.refute('other-headers', 'header', at, 'another header changes (%s)' % ('the rest' if t is None else ip.w.ts(t).split('::')[-1],), s)
        return
    ctx.ok('other-headers')


def getter(ctx, name, field):
    at = B + 'get_header'
    n = 0
    for ip, s0, b, bargs, args in scenario(ctx, name, None, ABSENT):
        s0.mem[args[0][1]] = b
        for k, s, r in ctx.run(ip, probe(ctx, name), args, s0.copy()):
            if k != 'ret':
                ctx.undecided('modelled', at, str(r)[:300])
                continue

            def one(s):
                want, _, _ = hget(ip, s, names(None, ip, b)[headers_field(ip, b)], ht(ip, field))
                vi = ip.variant_of(s, r)
                if (vi == 1) != (want is not None):
                    ctx.refute('get', 'presence', at, 'the header is reported as %s' % ('present' if vi else 'absent'), s)
                elif vi:
                    p = ip.enum_fields(s, r, 1)[0]
                    identical(ctx, 'get', 'value', at, 'value of the header', s, ip, ip.read(s, p[1], p[2]), want)
                else:
                    ctx.ok('get')
                return []
            n += 1
            runsplit(s, one)
    if not n:
        ctx.undecided('coverage', at, 'no outcome')


def fresh(ctx):
    """new(text) has the settings of from_url(parsed text)"""
    at = B + 'new'
    ip = ctx.interp('probe')
    pl, pa = probe(ctx, 'plain_builder'), probe(ctx, 'parsed_builder')
    ip.hfix = {}
    n = 0
    for o in ctx.run(ip, pl, ctx.args(ip, pl), State()):
        ref = names(None, ip, o[2])
        for k, s, r in ctx.run(ip, pa, ctx.args(ip, pa), o[1]):
            if k != 'ret':
                ctx.undecided('modelled', at, str(r)[:300])
                continue

            def one(s):
                if ip.variant_of(s, r) == 1:
                    ctx.ok('new')
                    return []
                got = names(None, ip, ip.enum_fields(s, r, 0)[0])
                for f in ref:
                    g = got[f]
                    if isinstance(g, tuple) and g and g[0] in ('en', 'sy') and ip.w.types[g[1]].get('path') == 'alloc::borrow::Cow':
                        continue
                    identical(ctx, 'new', 'setting', at, 'setting %s of a new builder' % f, s, ip, g, ref[f])
                return []
            n += 1
            runsplit(s, one)
    if not n:
        ctx.undecided('coverage', at, 'no outcome')


def upgrade(ctx, name, m, field, many):
    at = 'src/server/upgrade/%s.rs:Upgrade::%s' % ('async' if name[0] == 'a' else 'sync', m)
    fn = probe(ctx, name)
    n = 0
    for old in (None, 0, 1, 2, '?'):
        for count in (0, 1, 2, 3) if many else (None,):
            ip = ctx.interp('probe')
            args = ctx.args(ip, fn)
            u = ip.expand(args[0])
            hf = headers_field(ip, u)
            h0 = hd(names(None, ip, u)[hf])
            t = ht(ip, field)
            ip.hfix = {(h0[2], t): listed(ip, t, ('old', field), old)}
            if many:
                et = element_type(ip, args[1])
                args[1] = ('vec', et, tuple(('1', ip.sym(et, ('new', i))) for i in range(count)))
            for k, s, r in ctx.run(ip, fn, args, State()):
                if k == 'unk':
                    ctx.undecided('modelled', at, str(r)[:300])
                    continue
                if k == 'panic':
                    ctx.refute('no-panic', 'panic', at, 'panics (%s at %s)' % (r[1], r[2]), s)
                    continue
                n += 1

                def one(s):
                    after, before = names(None, ip, r), names(None, ip, u)
                    for f in before:
                        if f != hf:
                            identical(ctx, 'other-parts', 'part', at, 'the %s of the upgrade after the call' % f, s, ip, after[f], before[f])
                    effect_on_headers(ctx, ip, at, s, field, 'many' if many else 'one', h0, hd(after[hf]), args, old)
                    return []
                runsplit(s, one)
    if not n:
        ctx.undecided('coverage', at, 'no outcome')
    ctx.samples.append('%s: %d outcomes' % (at, n))
