"""The accept value is base64(SHA-1(base64(key) + GUID))"""
from ..check import *
from ..terms import *
from .. import accepts
from ..client import connections
from ..accepts import accept_value, sha_input, byte_segs
from ..http import b64_seq
from ..pure import each

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation with an unknown key: base64 and SHA-1 are uninterpreted functions of their exact input, so the computed value must be the whole digest, in order, '
               'of the base64 text of all 16 key bytes followed by the GUID, and its text the base64 of all 20 bytes. Every accept path is analysed for which key goes in.')
AT = 'websocket-base/src/header.rs:WebSocketAccept::'


class A:
    pass


def run(ctx):
    ctx.guard('modelled', AT + 'new', new, ctx)
    ctx.guard('modelled', AT + 'serialize', text, ctx)
    accepts.accepts(ctx, ('key',))
    connections(ctx, ('key',))
    ctx.rules.append('WebSocketAccept::new(k) == SHA-1(base64(k) ++ GUID); text == base64 of its 20 bytes; the response carries it for the key of the request')


def new(ctx):
    for w, ip, args, vals, s, r in each(ctx, 'accept_of', AT + 'new', depth=0):
        a = A()
        a.where, a.w = AT + 'new', w
        key = ip.read(s, args[0][1], args[0][2])
        accepts.check_accept(ctx, a, s, ip.expand(r), accept_value(ip, key), 'value')


def text(ctx):
    for name, at in (('serialize_accept', AT + 'serialize'), ('print_accept', 'src/header/accept.rs:HeaderFormat for WebSocketAccept::fmt_header'),
                     ('serialize_key', 'websocket-base/src/header.rs:WebSocketKey::serialize')):
        for w, ip, args, vals, s, r in each(ctx, name, at, depth=0):
            v = ip.read(s, args[0][1], args[0][2])
            ctx.equal('text', 'text', at, 'the text is not the base64 of all bytes', s, seqnorm(r[2]), seqnorm(b64_seq(byte_segs(v, ip))), w)
