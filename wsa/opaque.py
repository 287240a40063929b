"""Calls whose code is outside the analysis, as events: the result is a fresh symbolic value, the event names callee, arguments and result"""
from .terms import *
from .state import *


def is_local(ip, t):
    """does the facts base contain the code of methods of this type"""
    x = ip.w.types[t]
    return x['k'] == 'adt' and (x.get('crate') or x.get('path', '').split('::')[0]).startswith(('websocket', 'probe'))


def deep(ip, st, v, depth=4):
    """self-contained form of an argument: references become ('at', cell, path), values stay"""
    if isinstance(v, tuple) and v and v[0] == 'p':
        return ('at', v[1], v[2])
    return v


def event(force=False):
    """model: every call is one event ('x', name, args, result); the result is symbolic"""
    def m(c):
        if not force and known(c):
            return code(c)
        n = sum(1 for e in c.st.ev if e[0] == 'x')
        nm = ('x', n, c.callee['name'])
        r = c.ip.sym(c.dty, nm)
        c.st.ev = c.st.ev + (('x', short(c), tuple(deep(c.ip, c.st, a) for a in c.args), r),)
        return [('ret', c.st, r)]
    return m


def pure(c):
    """model: result named by the callee and its arguments, nothing else happens"""
    if known(c):
        return NotImplemented
    return [('ret', c.st, c.ip.sym(c.dty, ('call', short(c), tuple(deep(c.ip, c.st, a) for a in c.args))))]


def known(c):
    """the code of the callee is part of the analysis"""
    f = c.callee.get('fn')
    if f is not None and f in c.ip.w.fns:
        return True
    if c.callee['kind'] == 'virtual' and c.args and isinstance(c.args[0], tuple) and c.args[0][0] == 'p':
        m = c.args[0][3]
        return bool(m and m[0] == 'dyn' and m[1] is not None)
    return False


def code(c):
    """runs the code of a callee of this workspace, ahead of any general model"""
    f = c.callee.get('fn')
    if f is not None and f in c.ip.w.fns and c.ip.w.fns[f]['crate'].startswith('websocket'):
        return c.ip.exec_fn(c.ip.w.fns[f], c.args, c.st, c.depth + 1)
    return NotImplemented


def short(c):
    t = c.callee.get('_t')
    return t or '::'.join(c.path.split('::')[-2:])


def xs(st, name=None):
    return [e for e in st.ev if e[0] == 'x' and (name is None or e[1] == name)]


def table(events=(), pures=(), force=False):
    d = {n: event(force) for n in events}
    d.update({n: pure for n in pures})
    return d


def strip(nm):
    while isinstance(nm, tuple) and len(nm) == 2 and nm[0] == 'clone':
        nm = nm[1]
    return nm


def ident_(ctx, ip, st, a, b, depth=12):
    """are the values the same: True, False (they differ for some member of st), None (unknown). May raise Split"""
    if a == b:
        return True
    if depth == 0 or not (isinstance(a, tuple) and isinstance(b, tuple) and a and b):
        if isinstance(a, (int, tuple)) and isinstance(b, (int, tuple)):
            return num(ctx, st, a, b)
        return None
    if is_num(a) or is_num(b) or a[0] == 'C' or b[0] == 'C':
        return num(ctx, st, a, b)
    for x, y in ((a, b), (b, a)):
        # Cow and its content
        if x[0] == 'en' and y[0] in ('vec', 'p') and ip.w.types[x[1]].get('path') == 'alloc::borrow::Cow':
            return ident_(ctx, ip, st, x[3][0], y, depth - 1)
    if a[0] in ('vec', 'bm') and b[0] in ('vec', 'bm'):
        return seqs(ctx, ip, st, a[2], b[2], depth)
    if a[0] == 'p' and b[0] == 'p':
        if a[1] == b[1] and a[2] == b[2] and (a[3] == b[3] or not (a[3] and a[3][0] == 'len')):
            return True
        try:
            if a[3] and a[3][0] == 'len' or b[3] and b[3][0] == 'len':
                return seqs(ctx, ip, st, ip.seq_of(st, a)[0], ip.seq_of(st, b)[0], depth)
            return ident_(ctx, ip, st, ip.read(st, a[1], a[2]), ip.read(st, b[1], b[2]), depth - 1)
        except Unsupported:
            return None
    if a[0] == 'p' or b[0] == 'p':
        p, q = (a, b) if a[0] == 'p' else (b, a)
        if q[0] == 'vec':
            return seqs(ctx, ip, st, ip.seq_of(st, p)[0], q[2], depth)
        return None
    if a[0] == 'hd' or b[0] == 'hd':
        return heads(ctx, ip, st, a, b, depth)
    if {a[0], b[0]} == {'ob', 'sy'}:
        return False
    if a[:2] == ('ob', 'framed') and b[:2] == ('ob', 'framed'):
        return all_(ident_(ctx, ip, st, p, q, depth - 1) for p, q in zip(a[3:], b[3:]))
    ta, tb = a[1] if a[0] in ('sy', 'en', 'et', 'st') else None, b[1] if b[0] in ('sy', 'en', 'et', 'st') else None
    if ta is None or tb is None:
        return None
    if a[0] == 'sy' and b[0] == 'sy' and strip(a[2]) == strip(b[2]):
        return True
    t = ta if ta is not None else tb
    x = ip.w.types[t]
    if x['k'] == 'adt' and x['adt'] == 'enum' or a[0] in ('en', 'et') or b[0] in ('en', 'et'):
        va, vb = ip.variant_of(st, a), ip.variant_of(st, b)
        if va != vb:
            return False
        return all_(ident_(ctx, ip, st, p, q, depth - 1) for p, q in zip(ip.enum_fields(st, a, va), ip.enum_fields(st, b, vb)))
    if a[0] == 'st' or b[0] == 'st':
        try:
            a, b = ip.expand(a), ip.expand(b)
        except Unsupported:
            return None
        if len(a[2]) != len(b[2]):
            return None
        return all_(ident_(ctx, ip, st, p, q, depth - 1) for p, q in zip(a[2], b[2]))
    # two opaque values with different names: nothing relates them
    return False


def heads(ctx, ip, st, a, b, depth, skip=()):
    """headers: every header comes from the same place or has the same value"""
    from .http import hd, hdiff
    if not all(x[0] in ('hd', 'sy') for x in (a, b)):
        return None
    return all_(layers(ctx, ip, st, x, y, depth) for t, x, y in hdiff(hd(a), hd(b)) if t not in skip)


def layers(ctx, ip, st, x, y, depth):
    if len(x) == 1 and len(y) == 1 and x[0][0] == 'set' and y[0][0] == 'set':
        return ident_(ctx, ip, st, x[0][1], y[0][1], depth - 1)
    # where one says 'set' and the other takes it from unknown headers they differ for some of these
    return False


def all_(rs):
    r = True
    for x in rs:
        if x is False:
            return False
        if x is None:
            r = None
    return r


def num(ctx, st, a, b):
    r = ctx.same(st, a, b)
    return r if r in (True, None) else False


def seqs(ctx, ip, st, a, b, depth):
    a, b = seqnorm(st.nf(a)), seqnorm(st.nf(b))
    r = ctx.same(st, a, b)
    if r is True:
        return True
    if len(a) == len(b) and all(g[0] == '1' for g in a + b):
        return all_(ident_(ctx, ip, st, p[1], q[1], depth - 1) for p, q in zip(a, b))
    if r is None and all(g[0] == '1' for g in a + b):
        return False
    return None if r is None else False


def identical(ctx, name, key, where, msg, st, ip, got, want, w=None):
    """records whether got is the value want in every member of st"""
    from .models import runsplit
    ok = True
    for s, r in runsplit(st, lambda s: [(s, ident_(ctx, ip, s, got, want))]):
        if r is True:
            ctx.ok(name)
        elif r is None:
            ctx.undecided(name, where, '%s: got %s, expected %s' % (msg, ctx.show(got, w), ctx.show(want, w)))
            ok = False
        else:
            ctx.refute(name, key, where, '%s: got %s, expected %s' % (msg, ctx.show(got, w), ctx.show(want, w)), s)
            ok = False
    return ok
