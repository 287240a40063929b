"""Compact rendering of abstract values (diagnostics and violation reports)."""
from .terms import *


def nm(x):
    if isinstance(x, tuple):
        if x and x[0] == 'L':
            return num(x)
        if x and x[0] == 'fr':
            return '?%s%d' % (nm(x[2]) if len(x) > 2 else '', x[1])
        if x and x[0] in ('el',) and len(x) == 3:
            return '%s[%s]' % (nm(x[1]), num(x[2]))
        return '(' + ' '.join(nm(y) for y in x) + ')'
    return str(x)


def atom(a):
    if isinstance(a, tuple):
        if a[0] == 'a':
            return nm(a[1])
        if a[0] == 'tab':
            f, vals = a[1], a[2]
            if vals == tuple(range(f[2])):
                return nm(f[1])
            d = sorted(set(vals))
            return '{%s:%s}' % (nm(f[1]), ','.join(map(str, d[:6])) + ('..' if len(d) > 6 else ''))
        if a[0] == 'op':
            return '%s(%s)' % (a[1], ','.join(opa(y) for y in a[2:-1]))
    return nm(a)


def opa(y):
    if is_num(y):
        return num(y)
    if isinstance(y, tuple) and y and all(is_num(z) for z in y):
        return ','.join(num(z) for z in y)
    return nm(y)


def num(v):
    if isinstance(v, tuple) and v and v[0] == 'L':
        out = []
        for a, c in v[2]:
            out.append((('%d*' % c) if c != 1 else '') + atom(a))
        if v[1] or not out:
            out.append(str(v[1]))
        return '+'.join(out)
    if isinstance(v, tuple):
        return atom(v)
    return str(v)


def seg(w, g):
    if g[0] == '1':
        return val(w, g[1])
    if g[0] == 'k':
        return repr(bytes(g[1]))[1:]
    if g[0] == 's':
        return '%s[%s;+%s]' % (nm(g[1]), num(g[2]), num(g[3]))
    if g[0] == 'm':
        return '<%s ; %s>' % (val(w, g[1]), num(g[2]))
    return '<%s +%s>' % (nm(g[1]), num(g[2]))


def ty(w, t):
    if t is None:
        return '?'
    s = w.types[t]['s']
    import re
    s = re.sub(r'[a-z_0-9]+::', '', s)
    return s[:60]


def val(w, v, d=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if d > 12:
        return '...'
    k = v[0]
    if k == 'L':
        return num(v)
    if k == 'st':
        return '%s{%s}' % (ty(w, v[1]), ', '.join(val(w, x, d + 1) for x in v[2]))
    if k == 'en':
        try:
            n = w.types[v[1]]['variants'][v[2]][0]
        except Exception:
            n = str(v[2])
        return n + ('(%s)' % ', '.join(val(w, x, d + 1) for x in v[3]) if v[3] else '')
    if k == 'et':
        return '%s?%s' % (ty(w, v[1]), nm(v[2][1]))
    if k == 'sy':
        return '%s:%s' % (nm(v[2]), ty(w, v[1]))
    if k in ('vec', 'bm'):
        return k + '[' + ' '.join(seg(w, g) for g in v[2]) + ']'
    if k == 'p':
        m = ''
        if v[3]:
            m = '#' + ' '.join(num(x) if is_num(x) else str(x) for x in v[3][1:])
        if v[1][0] == 'c':
            return '&' + val(w, v[1][1], d + 1) + m
        return '&%s%s%s' % (nm(v[1]), ''.join('.' + str(x) for x in v[2]), m)
    if k == 'C':
        return '%s%s' % (v[1], num(v[2]))
    if k == 'fn':
        return 'fn ' + ty(w, v[1])
    if k in ('ob', 'it'):
        return k + '(' + ' '.join(val(w, x, d + 1) if isinstance(x, tuple) and x and x[0] in ('L', 'st', 'en', 'et', 'sy', 'vec', 'bm', 'p', 'ob', 'it', 'fn', 'C') else nm(x) for x in v[1:]) + ')'
    return nm(v)


def cond(L):
    return num(L)


def state(st):
    d = []
    for f, m in st.dom.items():
        n = bin(m).count('1')
        if n > 10:
            d.append('%s:#%d/%d' % (nm(f[1]), n, f[2]))
        else:
            d.append('%s:%s' % (nm(f[1]), [i for i in range(f[2]) if m >> i & 1]))
    fs = ['0<=' + num(neg(f)) if True else '' for f in list(st.facts)[:10]]
    return '; '.join(d) + ' | ' + '; '.join(fs) + (' | pos ' + str({nm(k): num(v) for k, v in st.pos.items()}) if st.pos else '')


def event(w, e):
    out = []
    for x in e:
        if isinstance(x, tuple) and x and x[0] in ('L', 'st', 'en', 'et', 'sy', 'vec', 'bm', 'p', 'ob', 'it', 'fn', 'C'):
            out.append(val(w, x))
        elif isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and x[0][0] in ('1', 'k', 's', 'm', 'o'):
            out.append('[' + ' '.join(seg(w, g) for g in x) + ']')
        else:
            out.append(nm(x))
    return '(' + ' '.join(out) + ')'
