"""Loads the MIR facts produced by mirdump for one crate."""
import json
import re


def strip_generics(p):
    """remove ::<...> groups and lifetimes from a path, keep leading <impl ..> / <X as Y> groups"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


class World:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.fns = {f['id']: f for f in d['fns']}
        self.vt = {}
        for v in d['vtables']:
            self.vt.setdefault(v['src'], {}).update(v['m'])
        self.bystr = {}
        for i, t in enumerate(self.types):
            self.bystr.setdefault(t['s'], i)
        self.roots = [f for f in d['fns'] if f['root'] and not f.get('promoted')]
        self._flow = {}
        self._live = {}

    def ts(self, t):
        return self.types[t]['s']

    def tk(self, t):
        return self.types[t]['k']

    def ty(self, t):
        return self.types[t]

    def adt(self, t):
        x = self.types[t]
        return x['path'] if x['k'] == 'adt' else None

    def find(self, pat=None, name=None, impl_self=None, impl_trait=None, exact=None, root=True):
        """functions by criteria on their path/impl"""
        res = []
        for f in (self.roots if root else self.fns.values()):
            if exact is not None and f['path'] != exact:
                continue
            if pat is not None and not re.search(pat, f['path']):
                continue
            if name is not None and f['name'] != name:
                continue
            if impl_self is not None and not (f.get('impl_self') is not None and re.search(impl_self, f['impl_self'] if isinstance(f['impl_self'], str) else self.ts(f['impl_self']))):
                continue
            if impl_trait is not None and not (f.get('impl_trait') and re.search(impl_trait, f['impl_trait'])):
                continue
            res.append(f)
        return res

    # ---- control flow

    @staticmethod
    def succs(term):
        t = term[0]
        if t == 'goto':
            return [term[1]]
        if t == 'switch':
            return [b for _, b in term[2]] + ([term[3]] if term[3] is not None else [])
        if t == 'drop':
            return [term[2]]
        if t == 'call':
            return [term[4]] if term[4] is not None else []
        if t == 'assert':
            return [term[4]]
        return []

    def flow(self, fn):
        """rpo index, loops: header -> set(blocks)"""
        fid = fn['id']
        if fid in self._flow:
            return self._flow[fid]
        blocks = fn['blocks']
        succ = {}
        order = []
        seen = set()
        stack = [(0, None)]
        # iterative dfs
        st = [(0, iter(self._s(blocks, 0)))]
        seen.add(0)
        succ[0] = self._s(blocks, 0)
        while st:
            b, it = st[-1]
            nxt = None
            for s in it:
                if s not in seen:
                    nxt = s
                    break
            if nxt is None:
                order.append(b)
                st.pop()
            else:
                seen.add(nxt)
                succ[nxt] = self._s(blocks, nxt)
                st.append((nxt, iter(succ[nxt])))
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while rpo[x] > rpo[y]:
                                    x = idom[x]
                                while rpo[y] > rpo[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if rpo[s] <= rpo[b] and dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(preds[x])
        self._flow[fid] = (rpo, loops)
        return self._flow[fid]

    def _s(self, blocks, b):
        if blocks[b] is None:
            return []
        return [s for s in self.succs(blocks[b][1]) if s is not None and blocks[s] is not None]

    # ---- liveness of locals whose address is never taken

    def live(self, fn):
        """block -> set of live-in locals; None when the function is too small to matter"""
        fid = fn['id']
        r = self._live.get(fid)
        if r is not None:
            return r
        rpo, _ = self.flow(fn)
        addr = set()
        use = {}
        df = {}

        def pl_use(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for x in pl[1:]:
                if isinstance(x, list) and x[0] == 'i' and x[1] not in d:
                    u.add(x[1])

        def walk_ops(x, u, d):
            """generic walk: operands are ['cp'|'mv', place]"""
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('cp', 'mv') and isinstance(x[1], list):
                    pl_use(x[1], u, d)
                    return
                if len(x) == 2 and x[0] == 'k':
                    return
                for y in x:
                    walk_ops(y, u, d)

        def dest(pl, u, d):
            if len(pl) == 1:
                d.add(pl[0])
            else:
                pl_use(pl, u, d)
        for b in rpo:
            u, d = set(), set()
            stmts, term = fn['blocks'][b][0], fn['blocks'][b][1]
            for x in stmts:
                if x[0] == '=':
                    rv = x[2]
                    if rv[0] == 'ref':
                        if rv[2][1:2] != ['*']:
                            addr.add(rv[2][0])
                        pl_use(rv[2], u, d)
                    elif rv[0] == 'discr':
                        pl_use(rv[1], u, d)
                    else:
                        walk_ops(rv, u, d)
                    dest(x[1], u, d)
                elif x[0] == 'sd':
                    pl_use(x[1], u, d)
                elif x[0] == 'dead':
                    d.add(x[1])
                else:
                    walk_ops(x, u, d)
            k = term[0]
            if k == 'switch' or k == 'assert':
                walk_ops(term[1], u, d)
            elif k == 'call':
                walk_ops(term[2], u, d)
                walk_ops(term[1].get('op'), u, d)
                dest(term[3], u, d)
            elif k == 'ret':
                u.add(0)
            elif k == 'drop':
                pass
            use[b], df[b] = u, d
        livein = {b: set() for b in rpo}
        order = sorted(rpo, key=lambda b: -rpo[b])
        ch = True
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in self._s(fn['blocks'], b):
                    o |= livein[s]
                n = use[b] | (o - df[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        nloc = len(fn['locals'])
        r = {b: frozenset(i for i in range(nloc) if i not in livein[b] and i not in addr) for b in rpo}
        self._live[fid] = r
        return r
