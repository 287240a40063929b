"""Enumerates the shapes of symbolic values (every enum variant, fields opaque)"""
from .terms import *
from .state import *


def shapes(ip, t, name, depth=6):
    """[value] covering every value of type t: enums with data are split by variant"""
    x = ip.w.types[t]
    k = x['k']
    v = ip.sym(t, name)
    if depth == 0 or v[0] != 'sy' if isinstance(v, tuple) else True:
        return [v]
    if k == 'adt' and x['adt'] == 'enum':
        out = []
        for vi, (_, _, fs) in enumerate(x['variants']):
            for c in product(ip, [(ft, (name, 'v', vi, i)) for i, (_, ft) in enumerate(fs)], depth):
                out.append(('en', t, vi, c))
        return out
    if k == 'tuple' or k == 'adt' and x['adt'] == 'struct':
        fts = ip.field_types(t)
        return [('st', t, c) for c in product(ip, [(ft, (name, '.', i)) for i, ft in enumerate(fts)], depth)]
    return [v]


def product(ip, fs, depth):
    out = [()]
    for ft, nm in fs:
        sh = shapes(ip, ft, nm, depth - 1)
        out = [o + (s,) for o in out for s in sh]
    return out
