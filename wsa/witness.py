"""Members of abstract states: confirms that a state is not empty and that two values really differ in it.

An abstract state is a conjunction of finite domains and linear facts.  `members` picks concrete values of the atoms
satisfying all of them; a disagreement is reported only together with such a member, so that an imprecision of the
normal forms can never raise an alarm.  Nothing of the analysed program is executed here."""
import contextlib
import random
from .terms import *
from .state import *


class Bad(Exception):
    pass


_over = {}
# over-approximated loop values, functions of texts that are not computed, results of unmodelled calls, shared state
OVER = ('hvl', 'phi', 'piece', 'pieces', 'trimmed', 'foreign', 'static', 'tls')


@contextlib.contextmanager
def shared(on):
    """members may choose the contents of shared state"""
    global OVER
    if not on:
        yield
        return
    old, OVER = OVER, OVER[:5]
    _over.clear()
    try:
        yield
    finally:
        OVER = old
        _over.clear()


COMPUTED = ('wrap', 'mul', 'rem', 'div', 'xor', 'BitOr', 'BitAnd', 'low', 'byte')


def over(k):
    """does the name stand for an over-approximated loop value (such a value proves nothing about members)"""
    r = _over.get(k)
    if r is None:
        r = _over[k] = isinstance(k, tuple) and any(has_tag(k, t) for t in OVER)
    return r


class Env:
    def __init__(self, st, rng, free=None):
        self.st = st
        self.rng = rng
        self.vals = {}
        self.free = free or {}
        self.sub = st.sub
        self.touched = []
        self.busy = set()
        for f, m in st.dom.items():
            if m == 2 and f[2] == 2 and isinstance(f[1], tuple) and f[1] and f[1][0] in ('ci', 'seqeq', 'pred') and rng.random() < .9:
                self.seed(f[1])

    def seed(self, nm):
        """make a condition on a text true"""
        from .http import flat
        if nm[0] == 'pred':
            segs, b = nm[2], nm[3]
            x, y = (bytes(self.rng.choice(b'abyz01-') for _ in range(self.rng.choice((0, 0, 1, 3)))) for _ in '12')
            b = {'contains': x + b + y, 'starts_with': b + y, 'ends_with': x + b}.get(nm[1], b)
        else:
            segs, b = nm[1], nm[2]
            if not isinstance(b, bytes):
                if not (isinstance(segs, tuple) and isinstance(b, tuple)):
                    return
                if flat(b) is None:
                    segs, b = b, segs
                b = flat(b)
            if b is None:
                return
            if nm[0] == 'ci' and self.rng.random() < .5:
                b = bytes(self.rng.choice((x, x ^ 32)) if 97 <= x | 32 <= 122 else x for x in b)
        try:
            self.place(segs, b)
        except Bad:
            pass

    def place(self, segs, b):
        segs = list(segs)
        while segs and segs[0][0] == 'k' and b.startswith(segs[0][1]):
            b = b[len(segs[0][1]):]
            segs.pop(0)
        while segs and segs[-1][0] == 'k' and b.endswith(segs[-1][1]):
            b = b[:len(b) - len(segs[-1][1])]
            segs.pop()
        if len(segs) != 1 or segs[0][0] != 's' or segs[0][2] != 0:
            return
        base = segs[0][1]
        if isinstance(base, tuple) and base and base[0] == 'case':
            return self.place(base[2], bytes(self.rng.choice((x, x ^ 32)) if 97 <= x | 32 <= 122 else x for x in b))
        k = self.key(base)
        n = segs[0][3]
        if is_L(n) and n[1] == 0 and len(n[2]) == 1 and n[2][0][1] == 1 and n[2][0][0][0] == 'a':
            self.vals.setdefault(('A', self.key(n[2][0][0][1])), len(b))
        for i, x in enumerate(b):
            self.vals.setdefault(('E', k, i), x)

    # ---- names

    def key(self, nm):
        """canonical key of a name: nested linear forms are evaluated"""
        if isinstance(nm, tuple):
            if is_L(nm):
                return self.num(nm)
            return tuple(self.key(x) if isinstance(x, tuple) else x for x in nm)
        return nm

    def pick(self, k, lo, hi, a):
        v = self.vals.get(k)
        if v is None:
            if over(k):
                raise Bad()
            c = self.free.get(k)
            if c is not None:
                v = self.rng.choice(c) if isinstance(c, list) else c
            else:
                v = self.choose(lo, hi)
            v = max(lo, min(hi, v))
            self.vals[k] = v
            self.touched.append((k, lo, hi))
        return v

    def choose(self, lo, hi):
        r = self.rng
        if hi - lo <= 300:
            return r.randint(lo, hi)
        c = r.random()
        if c < .55:
            b = max(lo, 0) if hi >= 0 else hi
            return min(hi, b + r.choice((0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 14, 17, 23, 40)))
        if c < .65:
            return lo
        if c < .7:
            return hi
        if c < .85:
            return min(hi, max(lo, r.choice((64, 125, 126, 127, 255, 256, 300, 65535, 65536, 70000, 1 << 20, 1 << 32))))
        return r.randint(lo, min(hi, lo + (1 << r.randint(1, 60))))

    def fin(self, f):
        nm, n = f[1], f[2]
        if isinstance(nm, tuple) and nm:
            if nm[0] == 'mod':
                return self.num(nm[1]) % n
            if nm[0] == 'pred' and len(nm) == 4:
                r = self.pred(nm)
                if r is not None:
                    return r
            if nm[0] in ('ci', 'seqeq') and len(nm) == 3:
                r = self.texts_equal(nm)
                if r is not None:
                    return r
            if nm[0] == 'el' and len(nm) == 3:
                return self.elem(nm[1], self.num(nm[2]), f)
        return self.finfree(('F', self.key(nm)), n, f)

    def pred(self, nm):
        from .strings import run
        n = sum(self.seqlens(nm[2]))
        if any(g[0] == 'o' for g in nm[2]):
            return None
        if n > 400:
            raise Bad()
        b = [self.seqel(nm[2], i) for i in range(n)]
        if not all(isinstance(x, int) for x in b):
            return None
        return int(run(nm[1], bytes(b), nm[3]))

    def bytes_of(self, segs):
        """the text in this member, None if it cannot be computed"""
        if isinstance(segs, bytes):
            return segs
        if not isinstance(segs, tuple) or any(g[0] == 'o' for g in segs):
            return None
        n = sum(self.seqlens(segs))
        if n > 400:
            raise Bad()
        b = [self.seqel(segs, i) for i in range(n)]
        return bytes(b) if all(isinstance(x, int) and 0 <= x < 256 for x in b) else None

    def texts_equal(self, nm):
        a, b = self.bytes_of(nm[1]), self.bytes_of(nm[2])
        if a is None or b is None:
            return None
        return int(a.lower() == b.lower() if nm[0] == 'ci' else a == b)

    def finfree(self, k, n, f):
        v = self.vals.get(k)
        if v is None:
            if over(k):
                raise Bad()
            m = self.st.dom.get(f)
            if m is not None:
                c = [i for i in range(n) if m >> i & 1]
                if not c:
                    raise Bad()
                v = self.rng.choice(c)
            else:
                c = self.free.get(k)
                v = self.rng.choice(c) if c else self.rng.randrange(n)
            self.vals[k] = v
        return v

    def elem(self, base, i, f=None):
        if isinstance(base, tuple) and base and base[0] == 'seqv':
            return self.seqel(base[1], i)
        if isinstance(base, tuple) and base and base[0] == 'case':
            x = self.seqel(base[2], i)
            if not isinstance(x, int):
                raise Bad()
            return x ^ 32 if (65 <= x <= 90 if base[1] == 'L' else 97 <= x <= 122) else x
        if isinstance(base, tuple) and base and base[0] == 'cat':
            for x in self.cat(base):
                n = sum(self.seqlens(x))
                if i < n:
                    return self.seqel(x, i)
                i -= n
            raise Bad()
        if f is None:
            f = ('f', ('el', base, i), 256)
        if isinstance(base, tuple) and base and base[0] == 'token':
            from .text import ALPHABET
            k = ('E', self.key(base), i)
            if k not in self.free:
                self.free[k] = list(ALPHABET)
        # a domain may be recorded under a symbolic offset
        return self.finfree(('E', self.key(base), i), 256, f)

    def cat(self, base):
        n = self.num(base[2])
        if n > 100:
            raise Bad()
        return [subst(base[1], {IDX: i}) for i in range(n)]

    def computed_len(self, b):
        if b[0] == 'seqv':
            return self.num(seqlen(b[1]))
        if b[0] == 'case':
            return sum(self.seqlens(b[2]))
        return sum(sum(self.seqlens(x)) for x in self.cat(b))

    def atom(self, a):
        if a in self.sub:
            if a in self.busy:
                raise Bad()
            self.busy.add(a)
            v = self.num(self.sub[a])
            self.busy.discard(a)
            return v
        t = a[0]
        if t == 'tab':
            return a[2][self.fin(a[1])]
        if t == 'a':
            nm = a[1]
            if isinstance(nm, tuple) and nm and nm[0] == 'len' and isinstance(nm[1], tuple) and nm[1] and nm[1][0] in ('seqv', 'case', 'cat'):
                return self.computed_len(nm[1])
            lo, hi = self.st.iv.get(a) or (a[2], a[3])
            return self.pick(('A', self.key(nm)), lo, min(hi, 1 << 64), a)
        if t == 'op':
            return self.op(a)
        raise Bad()

    def op(self, a):
        o = a[1]
        if o == 'wrap':
            n = a[3]
            v = self.num(a[2])
            lo, hi = a[4]
            return (v - lo) % (hi - lo + 1) + lo
        if o == 'mul':
            return self.num(a[2]) * self.num(a[3])
        if o == 'rem':
            d = self.num(a[3])
            if d == 0:
                raise Bad()
            return self.num(a[2]) % d
        if o == 'div':
            d = self.num(a[3])
            if d == 0:
                raise Bad()
            return self.num(a[2]) // d
        if o == 'xor':
            r = 0
            for x in a[2]:
                r ^= self.num(x)
            return r
        if o == 'BitOr':
            return self.num(a[2]) | self.num(a[3])
        if o == 'BitAnd':
            return self.num(a[2]) & self.num(a[3])
        if o == 'low':
            return self.num(a[2]) & ((1 << a[3]) - 1)
        if o == 'byte':
            return (self.num(a[2]) >> (8 * a[3])) & 255
        lo, hi = a[-1]
        return self.pick(('A', self.key(a[:-1])), lo, min(hi, 1 << 64), a)

    def num(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, tuple) and v[0] == 'C':
            x = self.num(v[2])
            return int({'le': x <= 0, 'eq': x == 0, 'ne': x != 0}[v[1]])
        if not is_L(v):
            raise Bad()
        s = v[1]
        for a, k in v[2]:
            s += k * self.atom(a)
        return s

    # ---- sequences as functions of the index

    def seqlens(self, segs):
        return [self.num(seglen(g)) for g in segs]

    def seqel(self, segs, i):
        for g in segs:
            n = self.num(seglen(g))
            if i < n:
                return self.segel(g, i)
            i -= n
        raise Bad()

    def segel(self, g, i):
        t = g[0]
        if t == '1':
            v = g[1]
            return self.num(v) if is_num(v) else ('V', self.key(v))
        if t == 'k':
            return g[1][i]
        if t == 's':
            return self.elem(g[1], self.num(g[2]) + i)
        if t == 'm':
            v = subst(g[1], {IDX: i})
            return self.num(v) if is_num(v) else ('V', self.key(v))
        return ('O', self.key(g[1]), i)

    def ok(self):
        st = self.st
        for f, m in list(st.dom.items()):
            if not m >> self.fin(f) & 1:
                return False
            if isinstance(f[1], tuple) and f[1] and f[1][0] == 'utf8' and not m >> 1 & 1 and self.num(seqlen(f[1][1])) == 0:
                return False    # nothing is valid text
        for F in st.facts:
            if self.num(F) > 0:
                return False
        for e in st.nes:
            if self.num(e) == 0:
                return False
        for a, (lo, hi) in st.iv.items():
            if not lo <= self.atom(a) <= hi:
                return False
        # an equation solved for a computed atom has to hold of what the atom computes
        for a, v in self.sub.items():
            if a[0] == 'op' and a[1] in COMPUTED and self.op(a) != self.num(v):
                return False
            if a[0] == 'a' and isinstance(a[1], tuple) and a[1] and a[1][0] == 'len' and isinstance(a[1][1], tuple) and a[1][1] \
                    and a[1][1][0] in ('seqv', 'case', 'cat') and self.computed_len(a[1][1]) != self.num(v):
                return False
        return True

    def repair(self):
        """adjust single free atoms so that the linear facts hold"""
        facts = set(self.st.facts)
        for rnd in range(20 + 2 * len(facts)):
            bad = None
            for F in self.st.facts:
                if self.num(F) > 0:
                    bad = F
                    break
            if bad is None:
                for a, (lo, hi) in self.st.iv.items():
                    v = self.atom(a)
                    if v < lo:
                        bad = sub(lo, ('L', 0, ((a, 1),)))
                        break
                    if v > hi:
                        bad = sub(('L', 0, ((a, 1),)), hi)
                        break
            if bad is None:
                for f, m in self.st.dom.items():
                    if not m >> self.fin(f) & 1 and isinstance(f[1], tuple) and f[1][0] == 'mod':
                        L = f[1][1]
                        want = self.rng.choice([i for i in range(f[2]) if m >> i & 1])
                        d = (want - self.num(L)) % f[2]
                        for a, k in (L[2] if is_L(L) else ()):
                            if a[0] == 'a' and abs(k) == 1 and a not in self.sub:
                                kk = ('A', self.key(a[1]))
                                self.vals[kk] = self.vals.get(kk, 0) + (d if k == 1 else f[2] - d)
                                break
                        bad = 0
                        break
            if bad is None:
                return True
            if bad == 0:
                continue
            done = False
            items = list(bad[2])
            self.rng.shuffle(items)
            over = self.num(bad)
            exact = neg(bad) in facts
            part = None
            for a, k in items:
                if a[0] == 'tab':
                    f = a[1]
                    if isinstance(f[1], tuple) and f[1] and (f[1][0] == 'mod' or f[1][0] == 'el' and isinstance(f[1][1], tuple) and f[1][1] and f[1][1][0] in ('seqv', 'cat', 'case')):
                        continue
                    cur = self.fin(f)
                    m = self.st.dom.get(f, (1 << f[2]) - 1)
                    base = over - k * a[2][cur]
                    good = [i for i in range(f[2]) if m >> i & 1 and base + k * a[2][i] <= 0]
                    if exact:
                        good = [i for i in good if base + k * a[2][i] == 0] or good
                    if good:
                        kk = ('E', self.key(f[1][1]), self.num(f[1][2])) if isinstance(f[1], tuple) and f[1][0] == 'el' else ('F', self.key(f[1]))
                        self.vals[kk] = self.rng.choice(good)
                        done = True
                        break
                    # not enough alone: remember the largest step in the right direction
                    best = min((i for i in range(f[2]) if m >> i & 1), key=lambda i: k * a[2][i])
                    gain = k * (a[2][cur] - a[2][best])
                    if gain > 0 and (part is None or gain > part[0]):
                        kk = ('E', self.key(f[1][1]), self.num(f[1][2])) if isinstance(f[1], tuple) and f[1][0] == 'el' else ('F', self.key(f[1]))
                        part = (gain, kk, best)
                    continue
                a0 = a
                hops = 0
                q = k
                while a0 in self.sub and hops < 6:
                    L = self.sub[a0]
                    hops += 1
                    c = [(y, z) for y, z in (L[2] if is_L(L) else ()) if y[0] == 'a']
                    if not c:
                        break
                    a0, z = self.rng.choice(c)
                    q *= z
                if a0[0] != 'a' or a0 in self.sub:
                    continue
                if isinstance(a0[1], tuple) and a0[1][0] == 'len' and isinstance(a0[1][1], tuple) and a0[1][1] and a0[1][1][0] in ('cat', 'seqv', 'case'):
                    continue
                lo, hi = self.st.iv.get(a0) or (a0[2], a0[3])
                kk = ('A', self.key(a0[1]))
                cur = self.atom(a0)
                need = -(-over // abs(q)) + (self.rng.choice((0, 0, 1, 3)))
                nv = cur - need if q > 0 else cur + need
                if lo <= nv <= hi:
                    self.vals[kk] = nv
                    done = True
                    break
            if not done and part is not None:
                self.vals[part[1]] = part[2]
                done = True
            if not done:
                return False
        return False


def members(st, seed=1, tries=300, limit=40, free=None):
    rng = random.Random(seed)
    n = 0
    for i in range(tries):
        e = Env(st, rng, free)
        try:
            if not e.ok():
                if not e.repair() or not e.ok():
                    continue
        except Bad:
            continue
        except (IndexError, KeyError, RecursionError):
            continue
        yield e
        n += 1
        if n >= limit:
            return


def nonempty(st, free=None, tries=300):
    for e in members(st, limit=1, free=free, tries=tries):
        return e
    return None


def differ_values(e, x, y):
    """do x and y differ in the member e: True / False / None (cannot be compared)"""
    if x == y:
        return False
    if (is_num(x) or isinstance(x, tuple) and x and x[0] == 'C') and (is_num(y) or isinstance(y, tuple) and y and y[0] == 'C'):
        return e.num(x) != e.num(y)
    if not isinstance(x, tuple) or not isinstance(y, tuple) or not x or not y:
        return None if x != y else False
    if x[0] in ('vec', 'bm') and y[0] in ('vec', 'bm'):
        return differ_seq(e, x[2], y[2])
    if x[0] == 'en' and y[0] == 'en' and x[1] == y[1]:
        if x[2] != y[2]:
            return True
        return any_differ(e, x[3], y[3])
    if x[0] == 'st' and y[0] == 'st' and x[1] == y[1] and len(x[2]) == len(y[2]):
        return any_differ(e, x[2], y[2])
    if x[0] == 'et' and y[0] == 'et' and x[1] == y[1]:
        return x[3][e.fin(x[2])] != y[3][e.fin(y[2])]
    if x[0] == 'et' and y[0] == 'en':
        return x[3][e.fin(x[2])] != y[2]
    if x[0] == 'en' and y[0] == 'et':
        return y[3][e.fin(y[2])] != x[2]
    if x[0] == 'sy' and y[0] == 'sy':
        if e.key(x[2]) == e.key(y[2]):
            return False
        return None
    return None


def any_differ(e, xs, ys):
    r = False
    for a, b in zip(xs, ys):
        d = differ_values(e, a, b)
        if d:
            return True
        if d is None:
            r = None
    return r


def differ_seq(e, a, b):
    la = sum(e.seqlens(a))
    lb = sum(e.seqlens(b))
    if la != lb:
        return True
    idx = set(range(min(la, 24)))
    for segs in (a, b):
        p = 0
        for g in segs:
            n = e.num(seglen(g))
            for q in (p, p + 1, p + n - 1, p + n // 2):
                if 0 <= q < la:
                    idx.add(q)
            p += n
    for _ in range(6):
        if la:
            idx.add(e.rng.randrange(la))
    r = False
    for i in sorted(idx):
        x, y = e.seqel(a, i), e.seqel(b, i)
        if x != y:
            if isinstance(x, tuple) or isinstance(y, tuple):
                r = None
                continue
            return True
    return r
