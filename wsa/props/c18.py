"""The client sends a correct handshake request"""
from ..client import requests, connections, TCP, CALLS

LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of every connect call with an unknown URL (host, port, query, user name and password present or not), unknown builder headers, version and key. '
               'What is written is compared, part by part, with the request required: one write of the complete head before anything is read, method, target, HTTP version, Host, Upgrade, '
               'Connection, version, key (the chosen one or 16 bytes drawn freshly in this call), credentials, and every other header as in the builder.')


def run(ctx):
    requests(ctx)
    connections(ctx, ('req',), TCP)
    ctx.rules.append('request == GET path[?query] HTTP/1.1; Host = host[:explicit port]; Upgrade = websocket; Connection = Upgrade; version = chosen or 13; key = chosen or fresh random; '
                     'Authorization basic iff user name; all other headers of the builder unchanged; blocking and asynchronous alike')
