"""Runs value-to-value probe functions for every shape of their arguments"""
from .check import *
from .terms import *
from .senders import probe
from .values import shapes
import itertools


def each(ctx, name, where, pre=None, extra=None, crate='probe', panics=True, depth=6):
    """yields (w, ip, argument values (behind references), initial state, final state, returned value) for every outcome that returns"""
    w = ctx.world(crate)
    fn = probe(ctx, name) if crate == 'probe' else ctx.fn(crate, name)
    ip0 = ctx.interp(crate)
    args0 = ctx.args(ip0, fn)
    alts = []
    for a in args0:
        if isinstance(a, tuple) and a[0] == 'p' and not a[2] and isinstance(a[1], tuple) and len(a[1]) > 2 and a[3] is None:
            alts.append([('ref', v) for v in shapes(ip0, a[1][2], a[1][1], depth)])
        elif isinstance(a, tuple) and a[0] == 'sy':
            alts.append([('val', v) for v in shapes(ip0, a[1], a[2], depth)])
        else:
            alts.append([('val', a)])
    n = 0
    for combo in itertools.product(*alts):
        ip = ctx.interp(crate, extra() if callable(extra) else extra)
        st = State()
        args, vals = [], []
        for a, (kind, v) in zip(args0, combo):
            vals.append(v)
            if kind == 'ref':
                st.mem[a[1]] = v
                args.append(a)
            else:
                args.append(v)
        s0s = [st]
        if pre:
            s0s = pre(ip, w, st, vals)
        for s0 in s0s:
            for k, s, r in ctx.run(ip, fn, args, s0):
                if k == 'unk':
                    ctx.undecided('modelled', where, '%s: %s' % (name, r))
                elif k == 'panic':
                    if panics:
                        ctx.refute('no-panic', 'panic', where, 'panics (%s at %s)' % (r[1], r[2]), s)
                else:
                    n += 1
                    yield w, ip, args, vals, s, r
    if not n:
        ctx.undecided('coverage', where, name + ': no outcome')
