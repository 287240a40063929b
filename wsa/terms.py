"""Abstract values of the analysis.

Integers are Python ints or linear forms ('L', c, ((atom, coef), ...)) over atoms.
Atoms:
  ('a', name, lo, hi)       unknown integer with a range
  ('tab', fatom, vals)      value of a table indexed by a finite atom  ('f', name, n)
  ('el', base, off, hi)     element of an opaque sequence at a symbolic offset (non finite use)
  ('op', name, args...)     uninterpreted operation; last element of 'op' tuples is (lo, hi)
Conditions (booleans) are 0/1, a single table with 0/1 values or ('C', 'le'|'eq'|'ne', L)  (L <= 0, L == 0, L != 0).
Sequences are tuples of segments:
  ('1', v)  one element          ('k', bytes) constant bytes
  ('s', base, off, len)          part of an opaque sequence
  ('m', body, len)               comprehension over IDX
  ('o', name, len)               opaque text (rendering of a value)
"""

import functools

INF = 1 << 70
IDX = ('a', 'i#', 0, INF)
ISIZE = (1 << 63) - 1
# nothing longer fits the address space of a 64 bit process
MAXLEN = 1 << 47
MEMSUM = 1 << 57


def is_int(v):
    return isinstance(v, int)


def is_L(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == 'L'


def is_num(v):
    return isinstance(v, int) or is_L(v)


_key_cache = {}


def akey(a):
    k = _key_cache.get(a)
    if k is None:
        k = repr(a)
        if len(_key_cache) > 400000:
            _key_cache.clear()
        _key_cache[a] = k
    return k


def parts(v):
    if isinstance(v, int):
        return v, {}
    return v[1], dict(v[2])


@functools.lru_cache(30000)
def combine(l):
    """weighted sum of tables: (minimum, table shifted to a zero minimum or None when constant)"""
    v, k = l[0]
    vals = v if k == 1 else [k * x for x in v]
    for v, k in l[1:]:
        vals = [x + k * y for x, y in zip(vals, v)]
    lo = min(vals)
    if lo == max(vals):
        return lo, None
    if lo != 0:
        vals = [x - lo for x in vals]
    return lo, tuple(vals)


def build(c, d):
    """canonical linear form"""
    tabs = {}
    rest = []
    for a, k in d.items():
        if k == 0:
            continue
        if a[0] == 'tab':
            tabs.setdefault(a[1], []).append((a[2], k))
        else:
            rest.append((a, k))
    out = rest
    for f, l in tabs.items():
        # keep tables with a zero minimum unless alone
        lo, vals = combine(tuple(l))
        c += lo
        if vals is not None:
            out.append((('tab', f, vals), 1))
    if not out:
        return c
    if len(out) == 1 and out[0][0][0] == 'tab' and c != 0:
        a = out[0][0]
        return ('L', 0, ((('tab', a[1], tuple(x + c for x in a[2])), 1),))
    if len(out) > 1:
        out.sort(key=lambda t: akey(t[0]))
    return ('L', c, tuple(out))


def atom(a):
    return build(0, {a: 1})


def add(x, y, k=1):
    if isinstance(x, int) and isinstance(y, int):
        return x + k * y
    if isinstance(y, int):
        if y == 0:
            return x
        if not isinstance(x, int) and (len(x[2]) > 1 or x[2][0][0][0] != 'tab'):
            return ('L', x[1] + k * y, x[2])
    elif isinstance(x, int) and k == 1:
        return add(y, x)
    c1, d1 = parts(x)
    c2, d2 = parts(y)
    d = dict(d1)
    for a, v in d2.items():
        d[a] = d.get(a, 0) + k * v
    return build(c1 + k * c2, d)


def sub(x, y):
    return add(x, y, -1)


def mul(x, k):
    if isinstance(x, int):
        return x * k
    c, d = parts(x)
    return build(c * k, {a: v * k for a, v in d.items()})


def neg(x):
    return mul(x, -1)


def single_tab(v):
    """(fatom, vals) when v is exactly a table"""
    if is_L(v) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and v[2][0][0][0] == 'tab':
        a = v[2][0][0]
        return a[1], a[2]
    return None


def tab(f, vals):
    return build(0, {('tab', f, tuple(vals)): 1})


def ident(f):
    return tab(f, range(f[2]))


def boolf(name):
    return ident(('f', name, 2))


def anon(name, lo=0, hi=MAXLEN):
    return ('L', 0, ((('a', name, lo, hi), 1),))


def lenof(base):
    if isinstance(base, tuple) and base and base[0] == 'cat' and base[2] == 0:
        return 0
    return ('L', 0, ((('a', ('len', base), 0, MAXLEN), 1),))


def mk_mod(v, n, vals=None):
    """table over (v mod n); vals defaults to identity"""
    if vals is None:
        vals = tuple(range(n))
    if isinstance(v, int):
        return vals[v % n]
    t = single_tab(v)
    if t:
        return tab(t[0], tuple(vals[x % n] for x in t[1]))
    c, d = parts(v)
    # a table over (L mod n) that is a rotation is L plus a constant modulo n
    for a, k in d.items():
        if a[0] == 'tab' and isinstance(a[1][1], tuple) and a[1][1] and a[1][1][0] == 'mod' and a[1][1][2] % n == 0:
            r = (a[2][0]) % n
            if all((x - i - r) % n == 0 for i, x in enumerate(a[2])):
                rest = ('L', c, tuple((y, q) for y, q in v[2] if y is not a))
                rest = build(c, dict(rest[2]))
                return mk_mod(add(rest, mul(add(a[1][1][1], r), k)), n, vals)
    d2 = {}
    # tables are reduced and start with zero
    for a, k in d.items():
        if a[0] == 'tab':
            # keep table values reduced
            x0 = a[2][0] * k
            c += x0
            nv = tuple((x * k - x0) % n for x in a[2])
            if any(nv):
                d2[('tab', a[1], nv)] = 1
        else:
            if k % n:
                d2[a] = k % n
    base = build(0, d2)
    # build may move a constant into c
    if isinstance(base, int):
        return vals[(base + c) % n]
    bc = base[1]
    if bc:
        base = build(0, dict(base[2]))
        c += bc
    t = single_tab(base)
    if t:
        return tab(t[0], tuple(vals[(x + c) % n] for x in t[1]))
    f = ('f', ('mod', base, n), n)
    return tab(f, tuple(vals[(i + c) % n] for i in range(n)))


_has_cache = {}


def contains(v, x):
    """does the tuple tree v contain x"""
    if v == x:
        return True
    if isinstance(v, tuple):
        for y in v:
            if isinstance(y, tuple) and contains(y, x):
                return True
    return False


def subst(v, m):
    """replace atoms (dict atom -> linear form) everywhere in a value"""
    if not isinstance(v, tuple) or not v:
        return v
    t = v[0]
    if t == 'L' and len(v) == 3 and isinstance(v[1], int):
        changed = False
        c = v[1]
        acc = c
        for a, k in v[2]:
            if a in m:
                acc = add(acc, m[a], k)
                changed = True
                continue
            if a[0] == 'a' and not isinstance(a[1], tuple):
                acc = add(acc, ('L', 0, ((a, k),)))
                continue
            r = subst_atom(a, m)
            if r is a:
                acc = add(acc, ('L', 0, ((a, k),)) if a[0] != 'tab' else build(0, {a: k}))
            else:
                changed = True
                acc = add(acc, r, k)
        return acc if changed else v
    if t == 'C' and len(v) == 3:
        l = subst(v[2], m)
        return v if l is v[2] else ('C', v[1], l)
    out = None
    for i, y in enumerate(v):
        if isinstance(y, tuple):
            z = subst(y, m)
            if z is not y:
                if out is None:
                    out = list(v)
                out[i] = z
    if out is None:
        return v
    return tuple(out)


def subst_atom(a, m):
    """returns a (identity) or a numeric value"""
    if a in m:
        return m[a]
    if a[0] == 'tab':
        f = a[1]
        nm = f[1]
        nm2 = subst(nm, m) if isinstance(nm, tuple) else nm
        if nm2 is nm:
            return a
        if isinstance(nm2, tuple) and nm2 and nm2[0] == 'mod':
            return mk_mod(nm2[1], nm2[2], a[2])
        if isinstance(nm2, tuple) and len(nm2) == 3 and nm2[0] == 'el' and f[2] == 256:
            r = elem_u8(nm2[1], nm2[2])
            if isinstance(r, int) and 0 <= r < 256:
                return a[2][r]
            q = single_tab(r)
            if q and all(0 <= x < 256 for x in q[1]):
                return tab(q[0], tuple(a[2][x] for x in q[1]))
        return tab(('f', nm2, f[2]), a[2])
    if a[0] == 'a':
        nm = a[1]
        if not isinstance(nm, tuple):
            return a
        nm2 = subst(nm, m)
        if nm2 is nm:
            return a
        if nm2[0] == 'len' and isinstance(nm2[1], tuple) and nm2[1] and nm2[1][0] == 'cat' and nm2[1][2] == 0:
            return 0
        return ('L', 0, ((('a', nm2, a[2], a[3]), 1),))
    r = tuple(subst(y, m) if isinstance(y, tuple) else y for y in a)
    if all(x is y for x, y in zip(r, a)):
        return a
    if r[0] == 'op' and r[1] == 'xor':
        return mk_xor(r[2], r[3][1])
    if r[0] == 'op' and r[1] == 'byte' and isinstance(r[2], int):
        return r[2] >> (8 * r[3]) & 255
    return ('L', 0, ((r, 1),))


def mk_xor(xs, hi):
    """canonical exclusive or of numbers"""
    flat = []
    for v in xs:
        q = v[2][0][0] if is_L(v) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 else None
        if q and q[0] == 'op' and q[1] == 'xor':
            flat.extend(q[2])
        else:
            flat.append(v)
    cnt = {}
    c = 0
    for v in flat:
        if isinstance(v, int):
            c ^= v
        else:
            cnt[v] = cnt.get(v, 0) ^ 1
    rest = [v for v, k in cnt.items() if k]
    if not rest:
        return c
    if len(rest) == 1 and c == 0:
        return rest[0]
    if len(rest) == 1:
        t = single_tab(rest[0])
        if t:
            return tab(t[0], tuple(x ^ c for x in t[1]))
    rest.sort(key=repr)
    if c:
        rest.append(c)
    return ('L', 0, ((('op', 'xor', tuple(rest), (0, hi)), 1),))


# ---- sequences

def seqlen(s):
    n = 0
    for g in s:
        n = add(n, seglen(g))
    return n


def seglen(g):
    t = g[0]
    if t == '1':
        return 1
    if t == 'k':
        return len(g[1])
    if t == 's':
        return g[3]
    return g[2]


def el_of(v):
    """recognise a byte element value: returns (base, off) or None"""
    t = single_tab(v)
    if t and t[0][2] == 256 and isinstance(t[0][1], tuple) and t[0][1][0] == 'el' and t[1] == _ID256:
        return t[0][1][1], t[0][1][2]
    if isinstance(v, tuple) and v and v[0] == 'sy' and isinstance(v[2], tuple) and v[2][0] == 'el':
        return v[2][1], v[2][2]
    return None


_ID256 = tuple(range(256))


def elem_u8(base, off):
    if isinstance(base, tuple) and base and base[0] == 'seqv':
        r = try_index(base[1], off)
        if r is not None:
            return r
    return tab(('f', ('el', base, off), 256), _ID256)


def try_index(seq, off):
    if not isinstance(off, int):
        return None
    pos = 0
    for g in seq:
        n = seglen(g)
        if not isinstance(n, int):
            return None
        if off < pos + n:
            if g[0] == '1':
                return g[1]
            if g[0] == 'k':
                return g[1][off - pos]
            if g[0] == 's':
                return elem_u8(g[1], add(g[2], off - pos))
            if g[0] == 'm':
                return subst(g[1], {IDX: off - pos})
            return None
        pos += n
    return None


def seqnorm(s):
    out = []
    for g in s:
        t = g[0]
        if t == 'k':
            if not g[1]:
                continue
            if out and out[-1][0] == 'k':
                out[-1] = ('k', out[-1][1] + g[1])
                continue
            out.append(g)
            continue
        if t == '1':
            v = g[1]
            if isinstance(v, int) and 0 <= v < 256:
                pass
            e = el_of(v)
            if e is not None:
                g = ('s', e[0], e[1], 1)
                t = 's'
            elif out and out[-1][0] == 'm':
                p = out[-1]
                if subst(p[1], {IDX: p[2]}) == v:
                    out[-1] = ('m', p[1], add(p[2], 1))
                    continue
        if t == 's':
            if g[3] == 0:
                continue
            if isinstance(g[1], tuple) and g[1] and g[1][0] == 'seqv' and g[2] == 0 and g[3] == seqlen(g[1][1]):
                out = list(seqnorm(tuple(out) + g[1][1]))
                continue
            if out and out[-1][0] == 's' and out[-1][1] == g[1] and add(out[-1][2], out[-1][3]) == g[2]:
                p = out[-1]
                out[-1] = ('s', p[1], p[2], add(p[3], g[3]))
                continue
            if out and out[-1][0] == 'm' and isinstance(g[3], int) and g[3] == 1:
                p = out[-1]
                x = subst(p[1], {IDX: p[2]})
                if el_of(x) == (g[1], g[2]):
                    out[-1] = ('m', p[1], add(p[2], 1))
                    continue
        elif t == 'm':
            if g[2] == 0:
                continue
            if isinstance(g[2], int) and g[2] <= 16:
                for i in range(g[2]):
                    out = list(seqnorm(tuple(out) + (('1', subst(g[1], {IDX: i})),)))
                continue
            # absorb preceding elements produced by the same comprehension
            while out and out[-1][0] in ('1', 'k', 's', 'm'):
                p = out[-1]
                if p[0] == 'm':
                    if subst(p[1], {IDX: add(atom(IDX), p[2])}) == g[1]:
                        out.pop()
                        g = ('m', p[1], add(p[2], g[2]))
                        continue
                    break
                if p[0] == '1':
                    last, rest = p[1], None
                elif p[0] == 'k':
                    last, rest = p[1][-1], (('k', p[1][:-1]) if len(p[1]) > 1 else None)
                elif isinstance(p[3], int) and p[3] >= 1:
                    last = elem_u8(p[1], add(p[2], p[3] - 1))
                    rest = ('s', p[1], p[2], p[3] - 1) if p[3] > 1 else None
                else:
                    break
                if not contains(g[1], IDX):
                    prev = g[1]
                else:
                    try:
                        prev = subst(g[1], {IDX: -1})
                    except Exception:
                        break
                if prev != last:
                    break
                out.pop()
                if rest is not None:
                    out.append(rest)
                g = ('m', subst(g[1], {IDX: sub(atom(IDX), 1)}), add(g[2], 1))
            e = el_of(g[1])
            if e is not None:
                d = sub(e[1], atom(IDX))
                if not contains(d, IDX) and not contains(e[0], IDX):
                    out = list(seqnorm(tuple(out) + (('s', e[0], d, g[2]),)))
                    continue
        elif t == 'o':
            if g[2] == 0:
                continue
        out.append(g)
    return tuple(out)


def bytes_seq(b):
    return (('k', bytes(b)),) if b else ()


def ones_to_k(seq):
    """turn constant byte elements into constant segments (canonical for byte sequences)"""
    out = []
    for g in seq:
        if g[0] == '1' and isinstance(g[1], int) and 0 <= g[1] < 256:
            g = ('k', bytes([g[1]]))
        if g[0] == 'k' and out and out[-1][0] == 'k':
            out[-1] = ('k', out[-1][1] + g[1])
        else:
            out.append(g)
    return tuple(out)


def has_tag(v, tag):
    if isinstance(v, tuple):
        if v and v[0] == tag:
            return True
        for y in v:
            if isinstance(y, tuple) and has_tag(y, tag):
                return True
    return False


def restrict(v, dom):
    """canonical form of a value under finite domains: table entries outside the domain are irrelevant"""
    if not dom or not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'L' and len(v) == 3 and isinstance(v[1], int):
        acc = v[1]
        ch = False
        for a, k in v[2]:
            if a[0] == 'tab' and a[1] in dom:
                m = dom[a[1]]
                lowest = (m & -m).bit_length() - 1
                d = a[2][lowest]
                vals = tuple(x if m >> i & 1 else d for i, x in enumerate(a[2]))
                if vals != a[2]:
                    ch = True
                acc = add(acc, tab(a[1], vals), k)
            elif a[0] == 'op':
                b = tuple(restrict(x, dom) if isinstance(x, tuple) else x for x in a)
                if b != a:
                    ch = True
                acc = add(acc, ('L', 0, ((b, 1),)), k)
            else:
                acc = add(acc, build(0, {a: 1}), k)
        return acc if ch else v
    out = None
    for i, y in enumerate(v):
        if isinstance(y, tuple):
            z = restrict(y, dom)
            if z is not y:
                if out is None:
                    out = list(v)
                out[i] = z
    return v if out is None else tuple(out)
