"""python3 -m wsa.check C01 : decides one property on the current tree of the repository"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from .facts import World          # noqa: E402
from .state import *              # noqa: E402,F403
from .terms import *              # noqa: E402,F403
from .interp import Interp        # noqa: E402
from .models import Models        # noqa: E402
from . import pp, witness         # noqa: E402

REPO = os.environ.get('WSA_REPO', '/repo')
CACHE = os.environ.get('WSA_CACHE', os.path.join(HERE, '.cache'))


class TimeUp(BaseException):
    pass


class Anchor(Exception):
    """the analysed construct does not exist any more"""


def source_hash():
    h = hashlib.sha256()
    for root in ('src', 'websocket-base/src', 'Cargo.toml', 'websocket-base/Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, root)
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = []
            for d, ds, ns in os.walk(p):
                ds.sort()
                fs += [os.path.join(d, n) for n in sorted(ns)]
        for f in fs:
            h.update(f.encode())
            h.update(open(f, 'rb').read())
    for f in ('mirdump/main.rs', 'probe/lib.rs', 'probe/witness.rs', 'probe/must.rs', 'probe/mustnot.rs', 'probe/mustnot_have.rs', 'tools/extract.sh'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:20]


def facts_dir():
    d = os.path.join(CACHE, 'facts-' + source_hash())
    if not os.path.exists(os.path.join(d, 'done')):
        os.makedirs(CACHE, exist_ok=True)
        for n in os.listdir(CACHE):
            if n.startswith('facts-'):
                shutil.rmtree(os.path.join(CACHE, n), ignore_errors=True)
        env = dict(os.environ, WSA_CACHE=CACHE, WSA_REPO=REPO)
        r = subprocess.run(['bash', os.path.join(HERE, 'tools/extract.sh'), d], env=env, stdout=sys.stderr)
        if r.returncode:
            print('extraction of MIR facts failed (does the tree build?)', file=sys.stderr)
            sys.exit(2)
        open(os.path.join(d, 'done'), 'w').close()
    return d


class Ctx:
    def __init__(self, cid, tier='quick'):
        self.cid = cid
        self.tier = tier
        self.t0 = time.time()
        self._w = {}
        self.ip0 = None
        self.ips = []
        self.obl = {}
        self.bad = []
        self.und = []
        self.fns = {}
        self.paths = 0
        self.calls = 0
        self.roots = []
        self.rules = []
        self.notes = []
        self.samples = []
        self.seen_keys = set()
        self.tried = {}

    # ---- facts

    def world(self, crate='base'):
        c = {'base': 'websocket_base', 'ws': 'websocket', 'probe': 'probe'}[crate]
        if c not in self._w:
            f = os.path.join(facts_dir(), c + '.json')
            if not os.path.exists(f):
                print('no facts of %s: it does not build on this tree' % c, file=sys.stderr)
                sys.exit(2)
            self._w[c] = World(f)
        return self._w[c]

    def roots_of(self, crate, suffix, pred=None):
        w = self.world(crate)
        r = []
        for f in w.roots:
            p = f['path']
            if any(isinstance(a, int) and w.types[a]['k'] != 'param' for a in f['args']):
                continue
            if (p == suffix or p.endswith('::' + suffix)) and (pred is None or pred(f)):
                r.append(f)
        return r

    def fn(self, crate, suffix, pred=None):
        r = self.roots_of(crate, suffix, pred)
        if len(r) != 1:
            raise Anchor('%d functions match %s::%s' % (len(r), crate, suffix))
        return r[0]

    def method(self, crate, name, self_ty=None, trait=None, pred=None):
        """functions found by impl facts, not by module path"""
        w = self.world(crate)
        out = []
        for f in w.roots:
            if f['path'].rsplit('::', 1)[-1] != name:
                continue
            t = f.get('impl_trait')
            s = f.get('impl_self')
            if trait is not None and not (t and (t == trait or t.endswith('::' + trait))) and not (f.get('in_trait') or '').endswith(trait):
                continue
            if trait is None and t:
                continue
            if self_ty is not None:
                if not s or not self.tyname(s, w, self_ty):
                    continue
            if any(isinstance(a, int) and w.types[a]['k'] != 'param' for a in f['args']):
                continue
            if pred is None or pred(f):
                out.append(f)
        return out

    def one(self, crate, name, self_ty=None, trait=None, pred=None):
        r = self.method(crate, name, self_ty, trait, pred)
        if len(r) != 1:
            raise Anchor('%d functions match %s %s::%s' % (len(r), crate, self_ty, name))
        return r[0]

    def tyname(self, s, w, want):
        if isinstance(s, int):
            s = w.types[s]['s']
        import re
        base = re.sub(r'<.*', '', s)
        return base == want or base.endswith('::' + want) or s == want

    # ---- running

    def interp(self, crate='base', extra=None, summaries=None):
        m = Models()
        if extra:
            m.extra.update(extra)
        ip = Interp(self.world(crate), m)
        self.ips.append(ip)
        if self.cid in ('C08', 'C09', 'C10', 'C11', 'C13'):
            ip.extra_exits = 6      # the receiving loops are generalised exactly enough
        return ip

    def run(self, ip, fn, args, st=None, depth=0):
        st = st or State()
        outs = ip.exec_fn(fn, args, st, depth)
        self.note_run(ip, fn, outs)
        return outs

    def note_run(self, ip, fn, outs):
        self.roots.append(fn['path'])
        self.paths += len(outs)
        for k, v in ip.fn_seen.items():
            self.fns[k] = self.fns.get(k, 0) + v
        for k, n in ip.havocs.items():
            self.notes.append('not modelled: %s: %s' % k)

    def args(self, ip, fn, pre='arg'):
        out = []
        for i in range(fn['argc']):
            out.append(ip.sym(fn['locals'][i + 1], (pre, i)))
        return out

    # ---- obligations

    def guard(self, name, where, fn, *a, **k):
        """runs one part of a check; a construct outside the supported fragment leaves that part undecided"""
        try:
            return fn(*a, **k)
        except (TimeUp, KeyboardInterrupt):
            raise
        except Exception as e:
            if os.environ.get('WSA_TRACE'):
                traceback.print_exc()
            self.undecided(name, where, '%s: %s' % (type(e).__name__, str(e)[:300]))
        return None

    def trace(self):
        if os.environ.get('WSA_TRACE'):
            traceback.print_exc()

    def ok(self, name, n=1):
        self.obl.setdefault(name, [0, 0, 0])[0] += n

    def fail(self, name, key, where, msg, st=None, member=None):
        self.obl.setdefault(name, [0, 0, 0])[1] += 1
        k = '%s:%s' % (where, key)
        if k in self.seen_keys:
            return
        self.seen_keys.add(k)
        d = {'key': k, 'obligation': name, 'where': where, 'what': msg}
        if st is not None:
            d['state'] = pp.state(st)[:1500]
        if member is not None:
            d['member'] = {str(k)[:200]: str(v)[:80] for k, v in list(member.vals.items())[:60]}
        self.bad.append(d)

    def undecided(self, name, where, msg):
        self.obl.setdefault(name, [0, 0, 0])[2] += 1
        self.und.append({'obligation': name, 'where': where, 'why': msg})

    def refute(self, name, key, where, msg, st, shared=False):
        """an outcome that must not exist: violation when the state has a member; shared: whatever shared state holds"""
        k = '%s:%s' % (where, key)
        if k in self.seen_keys:
            self.fail(name, key, where, msg)
            return
        n = self.tried.get(k, 0)
        with witness.shared(shared):
            e = witness.nonempty(st, tries=300 if n < 8 else 30)
        if e is None:
            self.tried[k] = n + 1
            self.undecided(name, where, 'no member found for: ' + msg)
            return
        self.fail(name, key, where, msg, st, e)

    def holds(self, name, key, where, msg, st, cond):
        """cond is true in every member of st"""
        c = st.nf(cond) if not isinstance(cond, int) else cond
        p = bool(c) if isinstance(c, int) else st.prove(c)
        if p is True:
            self.ok(name)
            return True
        s = st
        if not isinstance(c, int) and p is None:
            s = st.copy()
            if not all(s.assume(q) for q in s.alts(c)[1]) or s.infeasible():
                self.ok(name)
                return True
        e = witness.nonempty(s)
        if e is None:
            self.undecided(name, where, 'not proved: ' + msg)
            return None
        self.fail(name, key, where, msg, s, e)
        return False

    def equal(self, name, key, where, msg, st, got, want, w=None):
        """got and want are the same value in every member of st"""
        r = self.same(st, got, want)
        if r is True:
            self.ok(name)
            return True
        if r is None:
            self.undecided(name, where, msg)
            return None
        self.fail(name, key, where, msg + ': got %s, expected %s' % (self.show(got, w), self.show(want, w)), st, r)
        return False

    def show(self, v, w=None):
        w = w or next(iter(self._w.values()))
        if isinstance(v, tuple) and v and isinstance(v[0], tuple):
            return ('[' + ' '.join(pp.seg(w, g) for g in v) + ']')[:300]
        return pp.val(w, v)[:300]

    def same(self, st, a, b):
        """True | None (unknown) | member in which they differ"""
        if a == b:
            return True
        seqs = False
        if isinstance(a, tuple) and a and isinstance(a[0], tuple) or a == () or isinstance(b, tuple) and b and isinstance(b[0], tuple):
            a, b = ('vec', None, a), ('vec', None, b)
        a2, b2 = st.nf(a), st.nf(b)
        if self.canon(st, a2) == self.canon(st, b2):
            return True
        if is_num(a2) and is_num(b2) and st.prove(mk_eq(sub(a2, b2))) is True:
            return True
        if self.struct_same(st, a2, b2):
            return True
        unk = False
        n = 0
        for e in witness.members(st, limit=60):
            n += 1
            try:
                d = witness.differ_values(e, a2, b2)
            except (witness.Bad, IndexError, RecursionError, TypeError):
                unk = True
                continue
            if d:
                return e
        return None

    def struct_same(self, st, a, b):
        if a == b:
            return True
        if is_num(a) and is_num(b):
            return st.prove(mk_eq(sub(a, b))) is True
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b):
            return False
        if a[0] == 'C' or b[0] == 'C':
            pa, pb = st.prove(a) if not is_L(a) else None, st.prove(b) if not is_L(b) else None
            return pa is not None and pa == pb
        if a[0] in ('vec', 'bm') and b[0] in ('vec', 'bm'):
            x, y = self.canon(st, a)[2], self.canon(st, b)[2]
            return x == y or self.seq_same(st, list(x), list(y))
        if a[0] != b[0] or len(a) != len(b):
            return False
        if a[0] in ('st', 'en') and a[1] == b[1]:
            if a[0] == 'en' and a[2] != b[2]:
                return False
            return len(a[-1]) == len(b[-1]) and all(self.struct_same(st, p, q) for p, q in zip(a[-1], b[-1]))
        if a[0] in ('1', 's', 'm', 'o'):
            return all(self.struct_same(st, p, q) for p, q in zip(a[1:], b[1:]))
        if a[0] == 'p':
            return a[1] == b[1] and a[2] == b[2]
        return False

    def seq_same(self, st, xs, ys):
        """segment lists denote the same sequence, cutting segments against each other"""
        for _ in range(80):
            if not xs or not ys:
                return not xs and not ys
            a, b = xs[0], ys[0]
            if self.struct_same(st, a, b):
                xs, ys = xs[1:], ys[1:]
                continue
            la, lb = seglen_(a), seglen_(b)
            if a[0] == 'o' or b[0] == 'o':
                return False
            k = la if isinstance(la, int) else lb if isinstance(lb, int) else None
            if isinstance(la, int) and isinstance(lb, int):
                k = min(la, lb)
            if k is not None and k < 64:
                k = 1
                if not all(isinstance(n, int) or st.prove(mk_le(sub(k, n))) is True for n in (la, lb)):
                    return False
                u, v = (self.at(g, 0) for g in (a, b))
                if u is None or v is None or not self.struct_same(st, self.canon(st, st.nf(u)), self.canon(st, st.nf(v))):
                    return False
            elif a[0] != b[0] or a[0] not in 'sm':
                return False
            else:
                # same element function, one longer than the other
                if st.prove(mk_le(sub(la, lb))) is True:
                    k = la
                elif st.prove(mk_le(sub(lb, la))) is True:
                    k = lb
                else:
                    return False
                if not (self.struct_same(st, a[1], b[1]) and (a[0] == 'm' or self.struct_same(st, a[2], b[2]))):
                    return False
            xs = self.drop(a, k) + xs[1:]
            ys = self.drop(b, k) + ys[1:]
        return False

    def at(self, g, i):
        if g[0] == '1':
            return g[1]
        if g[0] == 'k':
            return g[1][i]
        if g[0] == 's':
            return elem_u8(g[1], add(g[2], i))
        return subst(g[1], {IDX: i})

    def drop(self, g, k):
        n = sub(seglen_(g), k)
        if n == 0:
            return []
        if g[0] == 'k':
            return [('k', g[1][k:])]
        if g[0] == 's':
            return [('s', g[1], add(g[2], k), n)]
        return [('m', subst(g[1], {IDX: add(atom(IDX), k)}), n)]

    def canon(self, st, v):
        return self.canon1(st, restrict(v, st.dom))

    def canon1(self, st, v):
        if isinstance(v, tuple) and v and v[0] in ('vec', 'bm'):
            s = v[2]
            s = tuple(('1', self.simp(st, g[1])) if g[0] == '1' else g for g in s)
            s = tuple(g for g in s if not (g[0] in ('s', 'm', 'o') and not isinstance(seglen_(g), int) and st.concrete(seglen_(g)) == 0))
            return (v[0], v[1], seqnorm(ones_to_k(seqnorm(s))))
        if isinstance(v, tuple) and v and v[0] in ('st', 'en'):
            return v[:-1] + (tuple(self.canon1(st, x) for x in v[-1]),)
        if is_L(v):
            v = self.simp(st, v)
            c = st.concrete(v)
            return v if c is None else c
        return v

    def simp(self, st, v):
        """re-evaluate bit operations with what the state knows"""
        if not is_L(v) or not any(a[0] == 'op' for a, _ in v[2]):
            return v
        if self.ip0 is None:
            self.ip0 = self.interp('base')
        try:
            return self.ip0.simp(st, v)
        except (Split, Unsupported):
            return v

    def cases(self, st, *conds):
        """split st by the given conditions: yields (state, [True/False..])"""
        work = [(st, [])]
        for c in conds:
            nxt = []
            for s, l in work:
                cc = s.nf(c) if not isinstance(c, int) else c
                p = s.prove(cc) if not isinstance(cc, int) else bool(cc)
                if p is not None:
                    nxt.append((s, l + [p]))
                    continue
                for tv, alt in zip((True, False), s.alts(cc)):
                    t = s.copy()
                    if all(t.assume(q) for q in alt) and not t.infeasible():
                        nxt.append((t, l + [tv]))
            work = nxt
        return work

    # ---- reporting

    def known(self):
        kf = os.path.join(HERE, 'known_findings.json')
        known = json.load(open(kf)) if os.path.exists(kf) else {'findings': []}
        return {x['key'] for x in known['findings'] if x['property'] == self.cid}

    def unlisted(self):
        kn = self.known()
        return [b for b in self.bad if b['key'] not in kn]

    def finish(self, level, explanation):
        for n in sorted({x for ip in self.ips for x in ip.soft}):
            self.undecided('modelled', 'whole check', 'call of %s is not modelled' % n)
        kn = self.known()
        listed = [b for b in self.bad if b['key'] in kn]
        new = self.unlisted()
        ev = os.environ.get('WSA_EV') or os.path.join(HERE, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rep = os.path.join(ev, self.cid + '.violations.json')
        tot = sum(sum(v) for v in self.obl.values())
        dis = sum(v[0] for v in self.obl.values())
        cov = {
            'explanation': explanation,
            'rules': self.rules,
            'roots_analysed': len(set(self.roots)),
            'functions_analysed': len(self.fns),
            'function_instances': sum(self.fns.values()),
            'paths_joined': self.paths,
            'obligations': tot,
            'discharged': dis,
            'undecided': sum(v[2] for v in self.obl.values()),
            'by_obligation': {k: {'discharged': v[0], 'violated': v[1], 'undecided': v[2]} for k, v in sorted(self.obl.items())},
            'root_functions': sorted(set(self.roots))[:60],
            'undecided_details': self.und[:20],
            'not_modelled': sorted(set(self.notes))[:20],
            'samples': self.samples[:8],
        }
        if level == 'proof':
            cov['checker_cmd'] = 'python3 -m wsa.check ' + self.cid
        out = {'property': self.cid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
               'coverage': cov, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new),
               'known_findings': [b['key'] for b in listed],
               'assumptions': ASSUME}
        json.dump(out, open(os.path.join(ev, self.cid + '.json'), 'w'), indent=1, default=str)
        if os.path.exists(rep):
            os.unlink(rep)
        for b in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.cid, b['key']))
        if new:
            json.dump(new, open(rep, 'w'), indent=1, default=str)
            for b in new[:10]:
                print('  %s: %s [%s]' % (b['where'], b['what'][:900], b['obligation']))
            print('VIOLATION property=%s replay=%s' % (self.cid, rep))
            return 1
        print('%s: %d obligations, %d discharged, %d undecided; %d functions, %d outcomes, %.1f s' % (
            self.cid, tot, dis, tot - dis - sum(v[1] for v in self.obl.values()), len(self.fns), self.paths, time.time() - self.t0))
        for u in self.und[:6]:
            print('  undecided: %s %s: %s' % (u['obligation'], u['where'], u['why'][:300]))
        return 0


def seglen_(g):
    from .terms import seglen
    return seglen(g)


ASSUME = [
    'The MIR the nightly compiler produces for the tree (all default features) means what the build produces.',
    'Models of functions outside the two crates (std, byteorder, bytes, hyper, futures, tokio, native-tls, url, base64, sha1, rand) state their documented behaviour.',
    'Reachable heap objects named by different roots do not alias; drop glue has no effect on the observed values.',
]


def main():
    cid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    ctx = Ctx(cid, tier)
    mod = importlib.import_module('wsa.props.' + cid.lower())
    facts_dir()

    limit = int(os.environ.get('WSA_TIME', '780'))
    soon = min(limit, 240)

    def late(*_):
        # once a violation is confirmed there is no need to look for more of them for long
        if time.time() - ctx.t0 > limit - 2 or ctx.unlisted():
            raise TimeUp()
        signal.alarm(max(1, min(30, int(limit - (time.time() - ctx.t0)))))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(soon)
    try:
        ctx.guard('check', cid, mod.run, ctx)
    except TimeUp:
        ctx.undecided('check', cid, 'out of time')
    signal.alarm(0)
    sys.exit(ctx.finish(getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION))


if __name__ == '__main__':
    main()
