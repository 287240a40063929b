"""Abstract states: memory, path facts over finite atoms and linear forms, event log."""
from .terms import *


class Split(Exception):
    """raised when a decision depends on facts the state does not contain; alts are lists of constraints"""

    def __init__(self, alts):
        Exception.__init__(self)
        self.alts = alts


class Unsupported(Exception):
    pass


def c_not(v):
    if isinstance(v, int):
        return 1 - v
    if v[0] == 'C':
        k, L = v[1], v[2]
        if k == 'le':
            return mk_le(sub(1, L))
        if k == 'eq':
            return ('C', 'ne', L)
        return ('C', 'eq', L)
    return sub(1, v)


def one_tab(L):
    """L as a function of one finite atom: (fatom, vals) or None"""
    if isinstance(L, int):
        return None
    if len(L[2]) == 1 and L[2][0][0][0] == 'tab':
        a, k = L[2][0]
        c = L[1]
        return a[1], [c + k * x for x in a[2]]
    return None


def mk_le(L):
    if isinstance(L, int):
        return 1 if L <= 0 else 0
    t = one_tab(L)
    if t:
        return tab(t[0], tuple(1 if x <= 0 else 0 for x in t[1]))
    return ('C', 'le', L)


def mk_eq(L):
    if isinstance(L, int):
        return 1 if L == 0 else 0
    t = one_tab(L)
    if t:
        return tab(t[0], tuple(1 if x == 0 else 0 for x in t[1]))
    # canonical sign
    k = L[2][0][1]
    if k < 0:
        L = neg(L)
    elif len(L[2]) == 2 and L[2][0][0][0] == 'tab' and L[2][1][0][0] == 'tab':
        # the sign is inside the tables
        M = neg(L)
        if [x[0][1] for x in M[2]] == [x[0][1] for x in L[2]]:
            L = min(L, M)
    return ('C', 'eq', L)


def atom_range(a, st=None):
    t = a[0]
    if t == 'a':
        if st is not None:
            r = st.iv.get(a)
            if r:
                return r
        return a[2], a[3]
    if t == 'tab':
        vals = a[2]
        if st is not None:
            m = st.dom.get(a[1])
            if m is not None:
                vals = [vals[i] for i in range(len(vals)) if m >> i & 1]
                if not vals:
                    return 0, 0
        return min(vals), max(vals)
    if t == 'op':
        if st is not None:
            r = st.iv.get(a)
            if r:
                return r
        return a[-1]
    return -INF, INF


class State:
    __slots__ = ('mem', 'dom', 'facts', 'iv', 'nes', 'sub', 'ev', 'pos', 'n', 'nsplit', 'assumed')

    def __init__(self):
        self.mem = {}
        self.dom = {}
        self.facts = ()
        self.iv = {}
        self.nes = ()
        self.sub = {}
        self.ev = ()
        self.pos = {}
        self.n = 0
        self.nsplit = 0
        self.assumed = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.dom = dict(self.dom)
        s.facts = self.facts
        s.iv = dict(self.iv)
        s.nes = self.nes
        s.sub = self.sub
        s.ev = self.ev
        s.pos = dict(self.pos)
        s.n = self.n
        s.nsplit = self.nsplit
        s.assumed = self.assumed
        return s

    def fresh(self):
        self.n += 1
        return self.n

    # ---- numeric reasoning

    def nf(self, v):
        if self.sub and isinstance(v, tuple):
            for _ in range(8):
                w = subst(v, self.sub)
                if w is v or w == v:
                    return w
                v = w
        return v

    def bounds(self, L):
        if isinstance(L, int):
            return L, L
        lo = hi = L[1]
        for a, k in L[2]:
            l, h = atom_range(a, self)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def prove_le(self, L, depth=2):
        """L <= 0 in every concrete state"""
        if isinstance(L, int):
            return L <= 0
        if self.bounds(L)[1] <= 0:
            return True
        if depth and self.facts:
            atoms = {a: k for a, k in L[2]}
            keys = set()
            for a in atoms:
                keys.add(a[1] if a[0] == 'tab' else a)
            for F in self.facts:
                # F <= 0 ; use only when it shares an atom with the right sign
                useful = False
                for a, k in F[2]:
                    ka = atoms.get(a)
                    if ka is not None and (ka > 0) == (k > 0):
                        useful = True
                        break
                    if a[0] == 'tab' and a[1] in keys:
                        useful = True
                        break
                if not useful:
                    continue
                m = 1
                for a, k in F[2]:
                    ka = atoms.get(a)
                    if ka is not None and (ka > 0) == (k > 0) and ka % k == 0:
                        m = max(1, ka // k)
                        break
                if self.prove_le(sub(L, mul(F, m)), depth - 1):
                    return True
        return False

    def prove(self, v):
        """True when the condition surely holds, False when it surely fails, None otherwise"""
        if isinstance(v, int):
            return v != 0
        v = self.nf(v)
        if isinstance(v, int):
            return v != 0
        if v[0] == 'C':
            k, L = v[1], v[2]
            if k == 'le':
                L2 = mk_le(L)
                if L2 is not v and not (isinstance(L2, tuple) and L2[0] == 'C'):
                    return self.prove(L2)
                if self.prove_le(L):
                    return True
                if self.prove_le(sub(1, L)):
                    return False
                return None
            e = mk_eq(L)
            if not (isinstance(e, tuple) and e[0] == 'C'):
                r = self.prove(e)
                return r if k == 'eq' or r is None else (not r)
            L = e[2]
            r = None
            if L in self.nes:
                r = False
            elif self.prove_le(sub(1, L)) or self.prove_le(add(1, L)):
                r = False
            elif self.prove_le(L) and self.prove_le(neg(L)):
                r = True
            else:
                g = 0
                from math import gcd
                for a, c in L[2]:
                    g = gcd(g, c)
                # divisibility
                if g > 1 and all(a[0] != 'tab' for a, c in L[2]) and L[1] % g:
                    r = False
            if r is None:
                return None
            return r if k == 'eq' else (not r)
        t = one_tab(v)
        if t is None:
            # sum of tables used as a boolean: must be a number; treat non zero as true
            lo, hi = self.bounds(v)
            if lo == hi:
                return lo != 0
            if lo > 0:
                return True
            return None
        f, vals = t
        m = self.dom.get(f)
        tr = fa = False
        for i, x in enumerate(vals):
            if m is None or m >> i & 1:
                if x:
                    tr = True
                else:
                    fa = True
        if tr and fa:
            return None
        return tr

    def alts(self, v):
        """constraints for v true / v false"""
        v = self.nf(v)
        if v[0] == 'C':
            k, L = v[1], v[2]
            if k == 'le':
                return [[('le', L)], [('le', sub(1, L))]]
            if k == 'eq':
                return [[('eq', L)], [('ne', L)]]
            return [[('ne', L)], [('eq', L)]]
        t = one_tab(v)
        if t is None:
            return [[('le', sub(1, v))], [('eq', v)]]
        f, vals = t
        mt = mf = 0
        for i, x in enumerate(vals):
            if x:
                mt |= 1 << i
            else:
                mf |= 1 << i
        return [[('dom', f, mt)], [('dom', f, mf)]]

    def truth(self, v):
        r = self.prove(v)
        if r is None:
            raise Split(self.alts(v))
        return r

    def split_atom(self, f):
        """split on every value of a finite atom"""
        m = self.dom.get(f, (1 << f[2]) - 1)
        raise Split([[('dom', f, 1 << i)] for i in range(f[2]) if m >> i & 1])

    def concrete(self, L):
        """the single value of L if the state determines it"""
        L = self.nf(L)
        if isinstance(L, int):
            return L
        lo, hi = self.bounds(L)
        if lo == hi:
            return lo
        return None

    def tabval(self, v):
        """restrict a table to the current domain"""
        t = one_tab(v) if is_L(v) else None
        if t:
            m = self.dom.get(t[0])
            if m is not None:
                vs = {x for i, x in enumerate(t[1]) if m >> i & 1}
                if len(vs) == 1:
                    return next(iter(vs))
        return v

    # ---- refinement

    def assume(self, c):
        """add a constraint; False when it contradicts the state"""
        k = c[0]
        if k == 'dom':
            f, m = c[1], c[2]
            if self.sub:
                r = subst_atom(('tab', f, tuple(range(f[2]))), self.sub)
                if isinstance(r, int):
                    return bool(m >> r & 1)
                if is_L(r):
                    t = one_tab(r)
                    if t and t[0] != f:
                        f2, vals = t
                        m2 = 0
                        for i, x in enumerate(vals):
                            if 0 <= x < f[2] and m >> x & 1:
                                m2 |= 1 << i
                        f, m = f2, m2
            cur = self.dom.get(f, (1 << f[2]) - 1)
            m &= cur
            if not m:
                return False
            if m != cur:
                self.dom[f] = m
                for F in self.facts:
                    if any(a[0] == 'tab' and a[1] == f for a, _ in F[2]):
                        if self.bounds(F)[0] > 0:
                            return False
            return True
        L = self.nf(c[1])
        if k == 'le':
            v = mk_le(L)
            if isinstance(v, int):
                return bool(v)
            if v[0] != 'C':
                f, vals = one_tab(v)
                m = 0
                for i, x in enumerate(vals):
                    if x:
                        m |= 1 << i
                return self.assume(('dom', f, m))
            if self.prove_le(L):
                return True
            if self.prove_le(sub(1, L)):
                return False
            if len(L[2]) == 1:
                a, q = L[2][0]
                lo, hi = atom_range(a, self)
                # q*a + c <= 0
                if q > 0:
                    hi = min(hi, (-L[1]) // q)
                else:
                    lo = max(lo, -((-L[1]) // (-q)))
                if lo > hi:
                    return False
                self.iv[a] = (lo, hi)
                if lo == hi:
                    return self.assume(('eq', sub(('L', 0, ((a, 1),)), lo)))
                for F in self.facts:
                    if any(x == a for x, _ in F[2]) and self.bounds(F)[0] > 0:
                        return False
                return True
            if self.prove_le(neg(L)):
                return self.assume(('eq', L))
            e = mk_eq(L)
            if isinstance(e, tuple) and e[0] == 'C' and e[2] in self.nes:
                return self.assume(('le', add(L, 1)))
            self.facts = self.facts + (L,)
            return True
        if k == 'eq':
            v = mk_eq(L)
            if isinstance(v, int):
                return bool(v)
            if v[0] != 'C':
                f, vals = one_tab(v)
                m = 0
                for i, x in enumerate(vals):
                    if x:
                        m |= 1 << i
                return self.assume(('dom', f, m))
            L = v[2]
            if L in self.nes:
                return False
            if self.prove_le(sub(1, L)) or self.prove_le(add(1, L)):
                return False
            # substitute a unit atom, prefer loop counters then plain atoms
            best = None
            for a, q in L[2]:
                if abs(q) == 1 and a[0] in ('a', 'op'):
                    r = 0
                    if a[0] == 'op':
                        r = 5
                    elif isinstance(a[1], tuple) and a[1] and a[1][0] == 'kap':
                        r = -1
                    elif isinstance(a[1], tuple) and a[1] and a[1][0] == 'len':
                        r = 1
                    rest = sub(L, ('L', 0, ((a, q),)))
                    if contains(rest, a):
                        continue
                    if best is None or r < best[0]:
                        best = (r, a, q, rest)
            if best is None:
                # keep as two inequalities
                if not self.prove_le(L):
                    self.facts = self.facts + (L,)
                n = neg(L)
                if not self.prove_le(n):
                    self.facts = self.facts + (n,)
                return True
            _, a, q, rest = best
            val = mul(rest, -1) if q == 1 else rest
            lo, hi = atom_range(a, self)
            m = {a: val}
            if a in self.iv:
                del self.iv[a]
            sub2 = {x: subst(y, m) for x, y in self.sub.items()}
            redo = []
            for x in list(sub2):
                r = subst_atom(x, m)
                if r is not x:
                    redo.append((r, sub2[x]))
            sub2[a] = val
            self.sub = sub2
            self.apply_sub(m)
            for F in self.facts_resub(m):
                if not self.assume(('le', F)):
                    return False
            for r, y in redo:
                if not self.assume(('eq', sub(r, y))):
                    return False
            for b in list(self.iv):
                r = subst_atom(b, m)
                if r is not b:
                    l2, h2 = self.iv.pop(b)
                    if l2 > -INF and not self.assume(('le', sub(l2, r))):
                        return False
                    if h2 < INF and not self.assume(('le', sub(r, h2))):
                        return False
            # keep the range of the replaced atom
            if lo > -INF and not self.assume(('le', sub(lo, val))):
                return False
            if hi < INF and not self.assume(('le', sub(val, hi))):
                return False
            for e in self.nes:
                if e == 0:
                    return False
            return True
        if k == 'ne':
            v = mk_eq(L)
            if isinstance(v, int):
                return not v
            if v[0] != 'C':
                f, vals = one_tab(v)
                m = 0
                for i, x in enumerate(vals):
                    if not x:
                        m |= 1 << i
                return self.assume(('dom', f, m))
            L = v[2]
            if self.prove_le(L) and self.prove_le(neg(L)):
                return False
            lo, hi = self.bounds(L)
            if self.prove_le(L):
                return self.assume(('le', add(L, 1)))
            if self.prove_le(neg(L)):
                return self.assume(('le', sub(1, L)))
            if L not in self.nes:
                self.nes = self.nes + (L,)
            return True
        raise Unsupported('constraint %r' % (c,))

    def facts_resub(self, m):
        fs = self.facts
        self.facts = ()
        out = []
        keep = []
        for F in fs:
            G = subst(F, m)
            if G is F:
                keep.append(F)
            else:
                out.append(G)
        self.facts = tuple(keep)
        return out

    def apply_sub(self, m):
        for k, v in self.mem.items():
            if isinstance(v, tuple):
                w = subst(v, m)
                if w is not v:
                    self.mem[k] = w
        for k, v in list(self.pos.items()):
            if isinstance(v, tuple):
                self.pos[k] = subst(v, m)
        self.ev = tuple(subst(e, m) if isinstance(e, tuple) else e for e in self.ev)
        nes = []
        for e in self.nes:
            g = subst(e, m)
            if g is not e:
                c = mk_eq(g)
                if isinstance(c, int):
                    nes.append(0 if c else 1)
                    continue
                g = c[2] if c[0] == 'C' else g
            nes.append(g)
        self.nes = tuple(x for x in nes if x != 1)
        for f in list(self.dom):
            nm = f[1]
            if isinstance(nm, tuple):
                r = subst_atom(('tab', f, tuple(range(f[2]))), m)
                if isinstance(r, int) or is_L(r):
                    mask = self.dom.pop(f)
                    if not self.assume(('dom', f, mask)):
                        self.nes = self.nes + (0,)

    def infeasible(self):
        return any(e == 0 and isinstance(e, int) for e in self.nes)
