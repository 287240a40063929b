"""Connections handed out: compared with what the public constructor makes from the right stream, headers, roles and limits"""
from .check import *
from .terms import *
from .models import runsplit
from .senders import probe
from .opaque import ident_


def leaves(ctx, ip, st, a, b, path=()):
    """paths at which two values of the same shape differ"""
    if a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] == 'sy' and b[0] == 'st':
            a = ip.expand(a)
        if b[0] == 'sy' and a[0] == 'st':
            b = ip.expand(b)
        if a[0] == 'st' and b[0] == 'st' and len(a[2]) == len(b[2]):
            return [x for i in range(len(a[2])) for x in leaves(ctx, ip, st, a[2][i], b[2][i], path + (i,))]
        if a[0] == 'en' and b[0] == 'en' and a[2] == b[2]:
            return [x for i in range(len(a[3])) for x in leaves(ctx, ip, st, a[3][i], b[3][i], path + (i,))]
    return [path]


def at(ip, v, path):
    for i in path:
        v = ip.expand(v) if v[0] == 'sy' else v
        v = (v[2] if v[0] == 'st' else v[3])[i]
    return v


def build(ctx, ip, st, name, args):
    """[(state, value)] of the probe constructor"""
    fn = probe(ctx, name)
    res = []
    for o in ip.exec_fn(fn, list(args), st, 0):
        if o[0] != 'ret':
            raise Unsupported('constructor %s: %s' % (name, o[2]))
        res.append((o[1], o[2]))
    return res


def compare(ctx, ip, st, got, name, args, groups, where, own=True):
    """got against probe constructor name(*args). groups: {arg index: (selected, key, message)}; the last group with index None
    takes what no argument decides"""
    w = ctx.world('probe')

    def one(s):
        outs = build(ctx, ip, s.copy(), name, args)
        if len(outs) != 1:
            # decided by splitting on the limits; go on from each
            return [(x, v) for x, v in outs]
        return [(outs[0][0], outs[0][1])]
    for s, want in runsplit(st, one):
        marks = {}
        ft = probe(ctx, name)
        for i in range(len(args)):
            m = list(args)
            t = ft['locals'][1 + i]
            m[i] = flip(args[i]) if isinstance(args[i], int) and args[i] in (0, 1) and ip.w.types[t]['k'] == 'bool' else marker(ip, s, t, i, args[i])
            found = set()
            for s2, v in runsplit(s.copy(), lambda x: build(ctx, ip, x, name, m)):
                found |= set(leaves(ctx, ip, s2, want, v))
            marks[i] = found
        diff = leaves(ctx, ip, s, got, want)
        for i, (sel, key, msg) in groups.items():
            if sel is None:
                continue
            if i is None:
                cov = [p for p in diff if not any(q[:len(p)] == p or p[:len(q)] == q for k in marks for q in marks[k])]
                ps = cov
                if not ps:
                    sel.ok(key)
                    continue
            else:
                ps = sorted(marks[i])
                if not ps:
                    sel.undecided(key, where, 'the constructor does not keep argument %d' % i)
                    continue
            for p in ps:
                try:
                    a, b = at(ip, got, p), at(ip, want, p)
                except (IndexError, TypeError):
                    sel.undecided(key, where, msg + ': shape differs')
                    continue
                same(sel, key, where, msg, s, ip, a, b, w)


def same(sel, key, where, msg, st, ip, got, want, w):
    from .opaque import identical
    identical(sel, key, key, where, msg, st, ip, got, want, w)


def flip(v):
    return 1 - v


def marker(ip, s, t, i, arg):
    if isinstance(arg, int) or is_num(arg):
        # another number of the same class
        v = anon(('marker', i), 0, (1 << 32) - 1)
        return v
    if arg[0] == 'en':
        n = len(ip.w.types[t]['variants'])
        return ('en', t, (arg[2] + 1) % n, ())
    return ip.sym(t, ('marker', i))
