"""Loop generalisation: an inductive template (linear, modular, appending, in-place, havoc) for the loop head state."""
from .terms import *
from .state import *


def match_state(ip, g, s, k):
    raise Unsupported('no subsumption')


def max_fresh(v, m=0):
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] == 'fr' and isinstance(v[1], int):
            m = max(m, v[1])
        for x in v:
            if isinstance(x, tuple):
                m = max_fresh(x, m)
    return m


class Generaliser:
    def __init__(self, ip, s, step, key):
        self.ip = ip
        self.s = s
        self.step = step
        self.key = key
        self.modes = {}
        self.tries = {}
        self.n0 = s.fresh()
        self.kap = ('a', ('kap', key, self.n0), 0, MAXLEN)
        self.kl = ('L', 0, ((self.kap, 1),))
        self.drop = set()
        self.thr = set()
        self.evloop = False
        self.suffixes = []
        self.inv = []

    def dry(self, st):
        ip = self.ip
        ip.dry += 1
        try:
            c = st.copy()
            b, e, o = self.step(c)
            for x in o:
                if x[0] == 'unk' and False:
                    raise Unsupported('loop body: %s' % (x[2],))
            return b
        finally:
            ip.dry -= 1

    def run(self):
        ip = self.ip
        ts = self.dry(self.s)
        if not ts:
            return (self.s, None)
        self.first = True
        self.maxn = max(t.n for t in ts)
        self.prep(ts)
        for t in ts:
            self.compare_state(self.s, t, None)
        self.first = False
        for rnd in range(14):
            g = self.build()
            ts = self.dry(g)
            self.prep(ts)
            self.maxn = max([self.maxn] + [t.n for t in ts])
            e = self.at_next(g)
            ch = False
            for t in ts:
                if self.compare_state(e, t, g):
                    ch = True
            self.inv = [f for f in self.inv if all(self.holds(t, subst(f, {self.kap: add(self.kl, 1)})) for t in ts)] if not ch else self.inv
            if not ch:
                if self.find_inv(g, ts):
                    continue
                ip.loop_backs.append((self.key, self.kl, ts))
                return (g, self.kap)
        raise Unsupported('loop not generalised: %s' % (self.key,))

    def holds(self, st, f):
        try:
            return st.prove_le(st.nf(f))
        except Unsupported:
            return False

    def find_inv(self, g, ts):
        """linear facts of the back edge states rewritten for the loop head"""
        have = set(g.facts) | set(self.inv)
        new = False
        cands = []
        for t in ts[:4]:
            for f in t.facts:
                if f in have or f in self.s.facts:
                    continue
                if not contains(f, self.kap):
                    continue
                if max_fresh(f) > self.n0:
                    continue
                cands.append(subst(f, {self.kap: sub(self.kl, 1)}))
            for a, (lo, hi) in t.iv.items():
                if a == self.kap and hi < MAXLEN:
                    cands.append(sub(self.kl, hi + 1))
        for c in cands:
            if c in have or isinstance(c, int):
                continue
            if g.prove_le(c):
                continue
            if not self.s.prove_le(self.s.nf(subst(c, {self.kap: 0}))):
                continue
            if not all(self.holds(t, subst(c, {self.kap: add(self.kl, 1)})) for t in ts):
                continue
            self.inv.append(c)
            have.add(c)
            new = True
        return new

    # ---- preparation

    def prep(self, ts):
        ip = self.ip
        for t in ts:
            for c in t.mem:
                if c[0] == 'd' and c not in self.s.mem:
                    try:
                        v = ip.sym(c[2], c[1])
                    except Unsupported:
                        continue
                    if t.mem[c] == v:
                        continue
                    self.s.mem[c] = v
            for c in self.s.mem:
                if c not in t.mem and c[0] != 'd':
                    self.drop.add(c)
            for k in t.pos:
                if k not in self.s.pos:
                    self.s.pos[k] = 0
            ev = t.ev
            base = self.s.ev
            if len(ev) > len(base) + (1 if self.evloop and not self.first_() else 0):
                pass

    def first_(self):
        return getattr(self, 'first', True)

    # ---- build generalised state

    def build(self):
        s = self.s
        g = s.copy()
        g.n = self.maxn + 17
        for c in self.drop:
            g.mem.pop(c, None)
        for c in list(g.mem):
            g.mem[c] = self.gen(('m', c), g.mem[c])
        for k in list(g.pos):
            g.pos[k] = self.gen(('pos', k), g.pos[k])
        if self.evloop:
            g.ev = s.ev + (('loop', self.key, self.n0),)
        for f in self.inv:
            g.assume(('le', f))
        for key, m in self.modes.items():
            if m[0] == 'hvrange':
                pass
        return g

    def gen(self, key, a):
        m = self.modes.get(key)
        if m is not None:
            return self.leaf(key, a, m)
        if isinstance(a, tuple) and not is_L(a) and not (a and a[0] == 'C'):
            if not self.under(key):
                return a
            return tuple(self.gen(key + (i,), x) if i > 0 or not isinstance(x, str) else x for i, x in enumerate(a))
        return a

    def under(self, key):
        n = len(key)
        for k in self.modes:
            if len(k) > n and k[:n] == key:
                return True
        return False

    def leaf(self, key, a, m):
        k = m[0]
        if k == 'lin':
            return add(a, mul(self.kl, m[1]))
        if k == 'mod':
            return mk_mod(add(a, mul(self.kl, m[2])), m[1])
        if k == 'tab':
            return ident(('f', ('hvl', key, self.n0), m[1])) if m[1] > 1 else 0
        if k == 'num':
            return anon(('hvl', key, self.n0), m[1], m[2])
        if k == 'bool':
            return boolf(('hvl', key, self.n0))
        phi = ('phi', key, self.n0)
        if k in ('app', 'appo'):
            return a + (('s', phi, 0, mul(self.kl, m[1])),)
        if k == 'comp':
            return seqnorm(a + (('m', m[1], self.kl),))
        if k in ('hvapp', 'hvappo'):
            return a + (('s', phi, 0, lenof(phi)),)
        if k == 'cat':
            return a + (self.catseg(m[1], self.kl),)
        if k in ('inpl', 'inplo'):
            st = self.s.copy()
            n = mul(self.kl, m[1])
            # elements from n on are the original ones
            return (('s', phi, 0, n),) + self.tail(a, n)
        if k == 'incomp':
            return seqnorm((('m', m[1], self.kl),) + self.tail(a, self.kl))
        if k == 'hvseq':
            return (('s', phi, 0, lenof(phi)),)
        if k == 'hvsame':
            return (('s', phi, 0, seqlen(a)),)
        if k == 'sym':
            return self.ip.sym(m[1], ('hvl', key, self.n0))
        raise Unsupported('leaf mode')

    def catseg(self, body, n):
        b = ('cat', body, n)
        return ('s', b, 0, lenof(b))

    def tail(self, a, n):
        if len(a) == 1 and a[0][0] == 's':
            g = a[0]
            return (('s', g[1], add(g[2], n), sub(g[3], n)),)
        b = ('seqv', a)
        return (('s', b, n, sub(seqlen(a), n)),)

    def at_next(self, g):
        e = g.copy()
        m = {self.kap: add(self.kl, 1)}
        for c in e.mem:
            e.mem[c] = subst(e.mem[c], m)
        for k in e.pos:
            e.pos[k] = subst(e.pos[k], m)
        return e

    # ---- compare

    def compare_state(self, e, t, g):
        """compare the expectation e with a back edge state t; adjusts modes. True when something changed"""
        ch = False
        for c, v in e.mem.items():
            if c in self.drop:
                continue
            w = t.mem.get(c)
            if w is None:
                if c[0] == 'd':
                    w = self.ip.sym(c[2], c[1])
                else:
                    self.drop.add(c)
                    ch = True
                    continue
            if self.cmp(('m', c), self.s.mem.get(c), v, w, t, g):
                ch = True
        for k, v in e.pos.items():
            if self.cmp(('pos', k), self.s.pos.get(k, 0), v, t.pos.get(k, 0), t, g):
                ch = True
        if t.ev != e.ev:
            n = len(e.ev)
            if t.ev[:n] == e.ev:
                suf = t.ev[n:]
                self.ip.loopev.setdefault((self.key, self.n0), set()).add(suf)
                if not self.evloop:
                    self.evloop = True
                    ch = True
            elif not self.evloop:
                self.evloop = True
                ch = True
        return ch

    def eqnum(self, t, x, y):
        if x == y:
            return True
        d = t.nf(sub(x, y))
        if d == 0:
            return True
        return t.prove(mk_eq(d)) is True

    def cmp(self, key, a, e, w, t, g):
        m = self.modes.get(key)
        if m is not None:
            if self.first_():
                # decided by an earlier back edge of the first iteration; the rounds after it compare all of them
                return False
            return self.cmp_leaf(key, a, e, w, t, g, m)
        if e == w:
            return False
        if t.sub and isinstance(e, tuple):
            e2 = t.nf(e)
            if e2 == w:
                return False
        if is_num(e) and is_num(w):
            if self.eqnum(t, e, w):
                return False
            return self.set_num(key, a, e, w, t, None)
        if isinstance(e, tuple) and isinstance(w, tuple) and e and w:
            h = e[0]
            if (h == 'C' or is_num(e)) and (w[0] == 'C' or is_num(w)):
                self.modes[key] = ('bool',)
                return True
            if is_L(e) or is_L(w):
                if h == 'C' or w[0] == 'C':
                    self.modes[key] = ('bool',)
                    return True
            if h == w[0]:
                if h in ('st', 'en', 'sy', 'et'):
                    same = e[1] == w[1] and len(e) == len(w)
                    if h == 'en':
                        same = same and e[2] == w[2]
                    if h in ('sy', 'et'):
                        same = False
                    if same:
                        i = len(e) - 1
                        if len(e[i]) == len(w[i]):
                            ch = False
                            for j in range(len(e[i])):
                                if e[i][j] is None or w[i][j] is None:
                                    if e[i][j] is not w[i][j]:
                                        raise Unsupported('loop: partially moved')
                                    continue
                                if self.cmp(key + (i, j), a[i][j], e[i][j], w[i][j], t, g):
                                    ch = True
                            return ch
                    if e[1] == w[1]:
                        self.modes[key] = ('sym', e[1])
                        return True
                    raise Unsupported('loop: value shapes')
                if h in ('vec', 'bm'):
                    ch = self.cmp_seq(key + (2,), a[2], e[2], w[2], t, g)
                    if h == 'bm':
                        if self.cmp(key + (3,), a[3], e[3], w[3], t, g):
                            ch = True
                    return ch
                if h == 'p':
                    if e[1] != w[1] or len(e[2]) != len(w[2]):
                        raise Unsupported('loop: pointer target changes')
                    ch = False
                    if e[2] != w[2]:
                        raise Unsupported('loop: pointer path changes')
                    if e[3] != w[3]:
                        if e[3] is None or w[3] is None or e[3][0] != w[3][0]:
                            raise Unsupported('loop: pointer meta')
                        for i in range(1, len(e[3])):
                            if self.cmp(key + (3, i), a[3][i], e[3][i], w[3][i], t, g):
                                ch = True
                    return ch
                if len(e) == len(w):
                    ch = False
                    for i in range(1, len(e)):
                        if self.cmp(key + (i,), a[i], e[i], w[i], t, g):
                            ch = True
                    return ch
            elif h in ('en', 'sy', 'et', 'st') and w[0] in ('en', 'sy', 'et', 'st') and e[1] == w[1]:
                self.modes[key] = ('sym', e[1])
                return True
        if isinstance(e, int) and isinstance(w, tuple) and w[0] == 'C' or isinstance(w, int) and isinstance(e, tuple) and e[0] == 'C':
            self.modes[key] = ('bool',)
            return True
        raise Unsupported('loop: cannot generalise %s / %s' % (str(e)[:120], str(w)[:120]))

    def set_num(self, key, a, e, w, t, m):
        if m is None:
            d = sub(w, a)
            if isinstance(d, int):
                self.modes[key] = ('lin', d)
                return True
            x = one_tab(a) if is_L(a) else None
            for n in (self.modulus(w), x[0][2] if x else None):
                if n and n <= 64 and mk_mod(add(a, 1), n) == w:
                    self.modes[key] = ('mod', n, 1)
                    return True
            return self.havoc_num(key, a, w, t)
        if m[0] == 'lin':
            n = self.modulus(w)
            if n and mk_mod(add(e, 0), n) == w and mk_mod(a, n) == a or n and mk_mod(e, n) == w and isinstance(a, int) and 0 <= a < n:
                self.modes[key] = ('mod', n, m[1])
                return True
            return self.havoc_num(key, a, w, t)
        if m[0] == 'mod':
            return self.havoc_num(key, a, w, t)
        raise Unsupported('num mode')

    def modulus(self, w):
        x = one_tab(w) if is_L(w) else None
        if x and isinstance(x[0][1], tuple) and x[0][1][0] == 'mod':
            return x[0][1][2]
        return None

    def havoc_num(self, key, a, w, t):
        lo1, hi1 = self.s.bounds(a)
        lo2, hi2 = t.bounds(w)
        lo, hi = min(lo1, lo2), max(hi1, hi2)
        if lo >= 0 and hi <= 1:
            self.modes[key] = ('bool',)
        elif lo >= 0 and hi <= 255:
            self.modes[key] = ('tab', 256)
        elif lo >= 0:
            h = INF
            if key not in self.thr:
                self.thr.add(key)
                for c in (hi if hi <= 1 << 64 else INF, (1 << 32) - 1, MEMSUM):
                    if c < INF and self.s.prove_le(sub(a, c)) and t.prove_le(sub(w, c)):
                        h = c
                        break
            self.modes[key] = ('num', 0, h)
        else:
            self.modes[key] = ('num', -INF, INF)
        return True

    def cmp_leaf(self, key, a, e, w, t, g, m):
        k = m[0]
        if k in ('lin', 'mod'):
            if not is_num(w):
                raise Unsupported('loop leaf')
            if self.eqnum(t, e, w):
                return False
            return self.set_num(key, a, e, w, t, m)
        if k in ('bool',):
            lo, hi = (0, 1) if isinstance(w, tuple) and w[0] == 'C' else t.bounds(w)
            if lo >= 0 and hi <= 1:
                return False
            self.modes[key] = ('num', 0 if lo >= 0 else -INF, INF)
            return True
        if k == 'tab':
            lo, hi = t.bounds(w)
            if lo >= 0 and hi < m[1]:
                return False
            self.modes[key] = ('num', 0 if lo >= 0 else -INF, INF)
            return True
        if k == 'num':
            lo, hi = t.bounds(w)
            if lo >= m[1] and hi <= m[2]:
                return False
            low, high = m[1], m[2]
            if not (lo >= low or t.prove_le(sub(low, w))):
                low = -INF
            if high < INF and not (hi <= high or t.prove_le(sub(w, high))):
                high = next((c for c in ((1 << 32) - 1, MEMSUM) if c > high and t.prove_le(sub(w, c))), INF)
            if (low, high) == (m[1], m[2]):
                return False
            self.modes[key] = ('num', low, high)
            return True
        if k == 'sym':
            return False
        raise Unsupported('leaf compare ' + k)

    def cmp_seq(self, key, a, e, w, t, g):
        m = self.modes.get(key)
        e2, w2 = seqnorm(t.nf(e)), seqnorm(t.nf(w))
        if m is None:
            if e2 == w2:
                return False
            # same shape, element wise
            if len(a) == len(w) and all(x[0] == y[0] == '1' for x, y in zip(a, w)):
                ch = False
                for i in range(len(a)):
                    if self.cmp(key + (i, 1), a[i][1], e[i][1], w[i][1], t, g):
                        ch = True
                return ch
            r = self.strip(a, w, t)
            if r is not None:
                n = seqlen(r)
                self.modes[key] = ('app', n) if isinstance(n, int) else ('hvapp',)
                return True
            if t.prove(mk_eq(sub(seqlen(a), seqlen(w)))) is True:
                for d in (1, 4, 2, 8):
                    try:
                        _, x = self.ip.cut(t, a, d)
                        _, y = self.ip.cut(t, w, d)
                    except (Split, Unsupported):
                        continue
                    if seqnorm(x) == seqnorm(y):
                        self.modes[key] = ('inpl', d)
                        return True
                self.modes[key] = ('hvsame',)
                return True
            self.modes[key] = ('hvseq',)
            return True
        k = m[0]
        phi = ('phi', key, self.n0)
        if k in ('app', 'appo'):
            cur = a + (('s', phi, 0, mul(self.kl, m[1])),)
            r = self.strip(cur, w, t)
            if r is None:
                self.modes[key] = ('hvapp',) if self.strip(a, w, t) is not None else ('hvseq',)
                return True
            n = seqlen(r)
            if n != m[1]:
                self.modes[key] = ('hvapp',)
                return True
            if k == 'app' and n == 1:
                x = self.single(r)
                if x is not None and not contains(x, phi) and max_fresh(x) <= self.n0:
                    self.modes[key] = ('comp', subst(x, {self.kap: atom(IDX)}))
                    return True
                self.modes[key] = ('appo', 1)
            return False
        if k == 'comp':
            if e2 == w2:
                return False
            self.modes[key] = ('app', 1) if self.again(key) else ('appo', 1)
            return True
        if k in ('hvapp', 'hvappo'):
            if self.strip(a, w, t) is not None:
                if k == 'hvapp':
                    # the same segments, as a function of the iteration, every time
                    r = self.strip(a + (('s', phi, 0, lenof(phi)),), w, t)
                    if r is not None and not contains(r, phi) and max_fresh(r) <= self.n0 and \
                            (contains(r, self.kap) or contains(r, IDX)) and not contains(r, IDX):
                        self.modes[key] = ('cat', subst(r, {self.kap: atom(IDX)}))
                        return True
                return False
            self.modes[key] = ('hvseq',)
            return True
        if k == 'cat':
            r = self.strip(a + (self.catseg(m[1], self.kl),), w, t)
            if r is not None and r == subst(m[1], {IDX: self.kl}):
                return False
            self.modes[key] = ('hvapp',) if self.again(key) else ('hvappo',)
            return True
        if k in ('inpl', 'inplo'):
            n = mul(self.kl, m[1])
            try:
                p, x = self.ip.cut(t, w, n)
                mid, y = self.ip.cut(t, x, m[1])
            except (Split, Unsupported):
                self.modes[key] = ('hvsame',)
                return True
            if seqnorm(y) != seqnorm(t.nf(self.tail(a, add(n, m[1])))):
                self.modes[key] = ('hvsame',)
                return True
            if seqnorm(p) != seqnorm(t.nf((('s', phi, 0, n),))):
                self.modes[key] = ('hvsame',)
                return True
            if k == 'inpl' and m[1] == 1:
                x = self.single(mid)
                if x is not None and not contains(x, phi) and max_fresh(x) <= self.n0:
                    self.modes[key] = ('incomp', subst(x, {self.kap: atom(IDX)}))
                    return True
                self.modes[key] = ('inplo', 1)
            return False
        if k == 'incomp':
            if e2 == w2:
                return False
            self.modes[key] = ('inpl', 1) if self.again(key) else ('inplo', 1)
            return True
        if k == 'hvsame':
            if t.prove(mk_eq(sub(seqlen(a), seqlen(w)))) is True:
                return False
            self.modes[key] = ('hvseq',)
            return True
        if k == 'hvseq':
            return False
        raise Unsupported('sequence mode')

    def again(self, key):
        """an element law may fail only because another location was still being generalised"""
        self.tries[key] = self.tries.get(key, 0) + 1
        return self.tries[key] <= 3

    def single(self, r):
        if len(r) != 1:
            return None
        g = r[0]
        if g[0] == '1':
            return g[1]
        if g[0] == 'k':
            return g[1][0]
        if g[0] == 's':
            return elem_u8(g[1], g[2])
        if g[0] == 'm':
            return subst(g[1], {IDX: 0})
        return None

    def strip(self, a, w, t):
        """w without the prefix a, or None"""
        try:
            a = seqnorm(t.nf(a))
            w = seqnorm(t.nf(w))
            n = seqlen(a)
            p, r = self.ip.cut(t, w, n)
            if seqnorm(p) == a:
                return r
        except (Split, Unsupported):
            pass
        return None
