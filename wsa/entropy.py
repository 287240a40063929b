"""Which bits of a value come from fresh random draws"""
from .terms import *

# library calls whose result is not unpredictable: shared state, clocks, hashing, generators with a given seed
PREDICTABLE = ('core::sync::atomic', 'core::cell', 'std::time', 'core::time', 'std::hash', 'core::hash', 'std::sync', 'alloc::sync', 'std::thread', 'std::process', 'seeded')


def root(nm, names):
    """the random draw a name belongs to, and the position in it"""
    if nm in names:
        return nm
    if isinstance(nm, tuple):
        if nm and nm[0] == 'el' and len(nm) == 3:
            return root(nm[1], names)
        if len(nm) == 2 and isinstance(nm[1], int) or len(nm) == 3 and nm[1] == '.':
            return root(nm[0], names)
    return None


def mentions(v, pred):
    if pred(v):
        return True
    if isinstance(v, tuple):
        return any(mentions(x, pred) for x in v)
    return False


def wires(v, names):
    """the bits of a number, least significant first: 0, 1 or (name, bit), 'n' for a bit no draw has part in; None when not a plain selection of bits"""
    if isinstance(v, int):
        return [v >> i & 1 for i in range(64)] if v >= 0 else None
    if is_L(v):
        out = wires(v[1], names)
        for a, k in v[2]:
            if k <= 0 or k & (k - 1):
                return None
            w = atom_wires(a, names)
            if w is None:
                return None
            sh = k.bit_length() - 1
            w = [0] * sh + w
            if any(x != 0 for x in w[64:]):
                return None
            for i, x in enumerate(w[:64]):
                if x != 0:
                    if out[i] != 0:
                        return None
                    out[i] = x
        return out
    return None


def named_bits(nm, n, names):
    if root(nm, names) is not None:
        return [(nm, i) for i in range(n)]
    return ['n'] * n


def atom_wires(a, names):
    if a[0] == 'a':
        hi = a[3]
        if a[2] != 0 or hi & (hi + 1):
            return None if root(a[1], names) is not None or a[2] < 0 else ['n'] * hi.bit_length()
        return named_bits(a[1], hi.bit_length(), names)
    if a[0] == 'tab':
        (_, nm, n), vals = a[1], a[2]
        m = max(vals)
        if root(nm, names) is None:
            return ['n'] * m.bit_length()
        if n & (n - 1):
            return None
        q = n.bit_length() - 1
        if sorted(vals) == list(range(n)):
            return [(nm, i) for i in range(q)]
        out = []
        for b in range(m.bit_length()):
            col = [x >> b & 1 for x in vals]
            if not any(col) or all(col):
                out.append(col[0])
                continue
            for i in range(q):
                if all((x >> i & 1) == y for x, y in enumerate(col)) or all((x >> i & 1) != y for x, y in enumerate(col)):
                    out.append((nm, i))
                    break
            else:
                return None
        return out
    if a[0] == 'op':
        if a[1] == 'div' and isinstance(a[3], int) and a[3] & (a[3] - 1) == 0:
            w = wires(a[2], names)
            return w and w[a[3].bit_length() - 1:]
        if a[1] == 'low':
            w = wires(a[2], names)
            return w and w[:a[3]]
        if a[1] == 'byte':
            w = wires(a[2], names)
            return w and w[8 * a[3]:8 * a[3] + 8]
    if not mentions(a, lambda x: x in names if isinstance(x, tuple) else False):
        return ['n'] * 8
    return None


def judge(bs, names, old=()):
    """bs: byte values. ('fresh',), ('old', name), ('no', why) or ('unknown', why): are they as unpredictable as a draw of that many bytes"""
    out = []
    names = set(names)
    for i, b in enumerate(bs):
        w = wires(b, names)
        if mentions(b, lambda x: isinstance(x, tuple) and len(x) > 2 and x[0] == 'foreign' and not x[1].startswith(PREDICTABLE)):
            return ('unknown', 'byte %d comes from a library call that is not modelled' % i)
        if w is None:
            if not mentions(b, lambda x: isinstance(x, tuple) and x in names):
                return ('no', 'byte %d does not depend on a random value' % i)
            out.append(None)
            continue
        out.append(w[:8] + [0] * (8 - len(w)))
    seen = {}
    for i, w in enumerate(out):
        for j, x in enumerate(w or ()):
            if x in (0, 1, 'n'):
                if set(old) and x == 'n' and mentions(bs[i], lambda y: isinstance(y, tuple) and y in old):
                    return ('old', i)
                return ('no', 'bit %d of byte %d is not random' % (j, i))
            if x in seen:
                return ('no', 'bit %d of byte %d is the same random bit as one of byte %d' % (j, i, seen[x]))
            seen[x] = i
    if any(w is None for w in out):
        return ('unknown', 'not a plain selection of random bits')
    return ("fresh",)
