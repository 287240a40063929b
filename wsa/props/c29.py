"""Connections can move between threads and halves cannot be confused"""
import json
import os
import re
from ..check import *

LEVEL = 'other'
TECHNIQUE = 'compile-time witnesses: programs rustc must accept and programs rustc must refuse, type-checked and borrow-checked against the current library, never run'
EXPLANATION = ('Each claim is a program. Send assertions, generic over the stream, are solved by the trait checker for all streams at once; every misuse of a taken value, of a half or of a copy is a program the '
               'borrow checker or type checker must refuse with the error named next to it, and its legal twin must be accepted, so that a refusal for another reason does not count.')
FILES = {'must': 'the program is accepted', 'mustnot': 'the program is refused: use of a value that was taken', 'mustnot_have': 'the program is refused: there is no such operation'}
EARLY = {'E0432', 'E0433', 'E0412', 'E0425', 'E0405', 'E0463', 'E0407', 'E0107', 'E0583'}


def programs(f):
    """[(line, kind, code, where, what, name)] of a witness file"""
    out = []
    pend = None
    for n, l in enumerate(open(os.path.join(HERE, 'probe', f + '.rs')), 1):
        m = re.match(r'// @(send|twin|not)\s*(.*)', l)
        if m:
            pend = (m.group(1), m.group(2).strip())
            continue
        m = re.match(r'fn (\w+)', l)
        if m and pend:
            k, x = pend
            code = where = what = None
            if k == 'not':
                code, rest = x.split(' ', 1)
                where, what = rest.split(' | ', 1)
            elif k == 'send':
                where = x
            out.append((n, k, code, where, what, m.group(1)))
            pend = None
    return out


def verdicts(f):
    """[(code, message, line in the witness file or None, details)] of the errors rustc reports"""
    out = []
    for l in open(os.path.join(facts_dir(), f + '.json')):
        if not l.startswith('{'):
            continue
        d = json.loads(l)
        if d.get('level') != 'error' or not d.get('spans'):
            if d.get('level') == 'error' and 'aborting' not in d.get('message', ''):
                out.append(((d.get('code') or {}).get('code'), d['message'], None, []))
            continue
        sp = [s for s in d['spans'] if s['is_primary'] and s['file_name'].endswith('/' + f + '.rs')] or [s for s in d['spans'] if s['file_name'].endswith('/' + f + '.rs')]
        notes = []
        for c in d.get('children', []):
            for s in c.get('spans', []):
                if '/probe/' not in s['file_name']:
                    notes.append('%s (%s:%d)' % (c['message'], s['file_name'].split('/repo/')[-1], s['line_start']))
            if not c.get('spans') and c['level'] in ('note', 'help') and 'within' in c['message']:
                notes.append(c['message'])
        out.append(((d.get('code') or {}).get('code'), d['message'], sp[0]['line_start'] if sp else None, notes))
    return out


def run(ctx):
    for f, claim in FILES.items():
        ps = programs(f)
        vs = verdicts(f)
        stray = [v for v in vs if v[2] is None or v[0] in EARLY]
        last = ps[0][0] - 1
        by = {}
        for v in vs:
            for n, *_ in ps:
                if v[2] == n:
                    by.setdefault(n, []).append(v)
        ctx.samples.append('%s.rs: %d programs (%s), %d refused' % (f, len(ps), claim, len(by)))
        for v in stray:
            ctx.undecided('coverage', 'probe/%s.rs' % f, 'the witness programs do not fit the interface: %s' % v[1][:160])
        for n, k, code, where, what, name in ps:
            errs = by.get(n, [])
            if k == 'send':
                if not errs:
                    if stray:
                        continue
                    ctx.ok('send')
                elif any(e[0] == 'E0277' and 'sent between threads' in e[1] for e in errs):
                    e = [e for e in errs if e[0] == 'E0277' and 'sent between threads' in e[1]][0]
                    ctx.fail('send', name, where, '%s: %s%s' % (name, e[1], ''.join('; ' + x for x in e[3])[:600]), None, None)
                else:
                    ctx.undecided('send', where, '%s: %s' % (name, errs[0][1][:160]))
            elif k == 'twin':
                if errs:
                    ctx.undecided('twin', 'probe/must.rs', 'the legal program %s is refused: %s' % (name, errs[0][1][:160]))
                elif not stray:
                    ctx.ok('twin')
            elif any(e[0] == code for e in errs):
                ctx.ok('refused')
            elif errs:
                ctx.undecided('refused', where, '%s is refused for another reason: %s' % (name, errs[0][1][:160]))
            elif not stray:
                ctx.fail('refused', name, where, '%s: rustc accepts the program %s of probe/%s.rs' % (what, name, f), None, None)
    ctx.rules.append('Send: for every stream type S with S: Send the client, halves, codecs, upgrades, errors and returned futures are Send')
    ctx.rules.append('typestate: accept*, reject*, drop, split, into_stream and into_ws move their receiver; neither client nor upgrade can be copied; halves lack the operations of the other half')
