"""A client connects only if the response proves the handshake"""
from ..client import responses, connections, TCP

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every connect call, from a builder made with public methods, against a peer whose response is unknown: status, accept value (20 unknown bytes), '
               'all listed shapes of Upgrade and Connection, a failing read and a closed stream. Every outcome is compared with a specification of the responses that prove the handshake; '
               'the accept value required is SHA-1 of base64 of exactly the key in the request that was written, followed by the GUID.')


def run(ctx):
    responses(ctx)
    connections(ctx, ('resp',), TCP)
    ctx.rules.append('a connection iff: whole request sent, then one response read from the same stream, status 101, accept == f(key sent), Upgrade is WebSocket, Connection contains upgrade; '
                     '3xx with Location => RedirectError(status, location)')
