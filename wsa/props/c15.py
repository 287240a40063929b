"""Accepting sends 101 with mandatory headers before yielding a client"""
from ..check import *
from .. import accepts

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every way to accept or reject an upgrade, blocking and asynchronous, with unknown request, own headers, custom headers, buffer '
               'and limits. On every path the text written (or the response head handed to the HTTP codec) is compared with the specified one: version of the request, status, '
               'mandatory headers set last, every other header from where the caller put it; success exactly when that write succeeded.')


def run(ctx):
    accepts.accepts(ctx, ('resp',))
    accepts.rejects(ctx, ('resp',))
    ctx.rules.append('accept: one head "<request version> 101 Switching Protocols" + headers, with Accept/Connection/Upgrade set after custom headers; Ok iff written; reject: 400 and the given headers')
